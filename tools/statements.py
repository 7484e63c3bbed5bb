# executed by props.py

NOT_APPLICABLE = {}

prop('C01', 'creole2html accepts every string',
     'For every string of up to 4,000 characters, with control characters, unpaired surrogates, any mixture of markup marks and lists up to 50 '
     'levels deep, and for every combination of blog_line_breaks, strict, verbose (None, 0, 1, 2) and macros (none, a dict, an object), creole2html '
     'raises nothing and returns a string. The same call gives the same string again.',
     ['inputs', 'configurations'],
     'all strings and option values; no markup error exists in creole',
     'The tests convert about 150 fixed documents; hostile combinations of half-open markup, control characters and options are not among them.',
     PARSE + EMIT + INIT, [('block and inline rules with a catch-all text rule', 'creole/parser/creol2html_rules.py'), ('one emit method per node kind', 'creole/emitter/creol2html_emitter.py')],
     'runtime exception monitor over generated hostile documents', 'Held on the executed documents; deep nesting beyond 50 levels is limited by the recursion limit of the interpreter and out of scope.')

prop('C02', 'creole2html never lets document text become markup',
     'For every document of XML characters and macros that are missing or built in, the result is well-formed and contains only the elements creole '
     'has (p, h1-h6, ul, ol, li, table, tr, th, td, pre, code, hr, br, a, img, strong, i, tt, sup, sub, u, small, del), each with only its own attributes, nested as html allows. '
     'The text between "<" and ">", quotes and ampersands of the document appears only as escaped text or escaped attribute values that stand literally in the document, never as a tag, attribute or comment, also '
     'in headlines, the table of contents, image sizes and macro error messages.',
     ['inputs', 'configurations'], 'all documents without own macros, every value of blog_line_breaks, strict and verbose 0 to 2',
     'Escaping is tested with a handful of strings; each emit method and each attribute needs every hostile character in every context.',
     EMIT + PARSE, [('html_escape / attr_escape in every emit method', 'creole/emitter/creol2html_emitter.py'), ('safe attribute writer', 'creole/shared/utils.py')],
     'output monitor: XML parser and grammar checker over hostile documents', 'Sound for what was executed: the checker parses every output with expat. '
     'The unescaped echo of wrong macro arguments is a known finding, pinned by a test of the repository.')

prop('C03', 'creole markup means the documented html structure',
     'For well-formed documents built of paragraphs, headings (level above 6 becomes 6), bullet, numbered, nested and mixed lists, tables, rulers, preformatted '
     'blocks and the inline elements (typefaces, links, raw urls, images with title and size, forced line breaks, nowiki, escapes), the parsed html is the tree that the '
     'creole 1.0 rules and the additions of python-creole define: same elements, nesting, order, attributes and text. It does not depend on optional spacing '
     '(white space around headings, in cells, before list marks, closing marks of headings and table rows), and the options decide about line breaks only, '
     'except that with strict images have no size and no title of their own.',
     ['inputs', 'configurations'], 'all well-formed documents of the supported syntax in all spellings, every combination of blog_line_breaks and strict',
     'Tests fix about 100 documents; combinations (a link in a typeface in a nested list item after a table) are unbounded.',
     PARSE + EMIT, [('inline and block rules', 'creole/parser/creol2html_rules.py'), ('document tree construction', 'creole/parser/creol2html_parser.py'), ('html output', 'creole/emitter/creol2html_emitter.py')],
     'trace comparison with an independent executable reference model', 'The reference model (vf/creolegen.py) is written from the creole specification and shares no code with the converter; spec gaps are excluded from the generator.')

prop('C04', 'creole2html conserves the words of the document',
     'For every document without macros, however broken its markup is, each word of letters and digits appears in the result exactly once and in the same order '
     '(an equal copy as link label or image title and alt counts once). Words that are separated by white space in the document are separated by white space or a tag in the result.',
     ['inputs', 'configurations'], 'all documents without macro tags, both line break modes, strict or not',
     'Lost or doubled text shows only for combinations of unclosed marks, tables and lists that nobody wrote down as a test.',
     PARSE + EMIT, [('every rule replaces the text it consumed by nodes', 'creole/parser/creol2html_parser.py')],
     'conservation monitor: uniquely numbered words through hostile documents', 'Held on the executed documents; words are followed by unique numbers, so a loss cannot be masked by a repetition.')

prop('C05', 'nowiki areas and escaped characters stay literal',
     'The characters between {{{ and }}} in a line of text (in paragraphs, typefaces, list items and table cells) and the lines of a preformatted block are exactly the text of a code, respectively '
     'pre element: no markup, macro, html or escape in it has an effect, only the tilde of a line that consists of ~}}} is removed and the blank lines at the begin and end are kept. A tilde before a '
     'non-space character removes the meaning of this character, and of the construct it begins, and disappears itself.',
     ['inputs', 'configurations'], 'all contents without }}} on its own, all contexts, both line break modes',
     'The tests escape a few constructs; the property quantifies over every construct and every context.',
     PARSE + EMIT, [('nowiki and escape rules before all others', 'creole/parser/creol2html_rules.py'), ('pre block handling', 'creole/parser/creol2html_parser.py')],
     'output monitor with an exact-text oracle', 'Held on the executed contents and contexts.')

prop('C06', 'Line endings do not matter; the line break mode decides only about breaks',
     'A document written with \\n, \\r\\n, \\r or any mixture of them gives the same html, and no other character is a line ending. A single line break in a paragraph is exactly one <br /> with blog_line_breaks and a single space without; '
     'nothing else in the html depends on the option, and without it there is a <br /> only where the document has \\\\.',
     ['inputs', 'configurations'], 'all documents (with macros, tables, lists, preformatted blocks) in all line ending variants',
     'The tests use \\n in almost all documents and compare the modes for a few paragraphs.',
     PARSE, [('line ending normalisation and line rules', 'creole/parser/creol2html_parser.py')],
     'differential monitor: executions of the same document with different line endings and modes', 'Metamorphic oracle, exact equality.')

prop('C07', 'Blocks separated by blank lines do not influence each other',
     'The html of fragments joined by blank lines (also lines of only white space) is the html of the fragments one after the other, for every order of the fragments, if no fragment contains '
     'macro tags or nowiki brackets over a blank line. This also holds for broken fragments: an unclosed typeface, link, image, list or table ends with its block.',
     ['inputs', 'histories'], 'all sequences of 2 to 6 well-formed or broken fragments and all their orders',
     'State that leaks from one block to the next (an open list, table or typeface) needs a specific pair of blocks; tests have few pairs.',
     PARSE, [('reset of the current node and text at a block border', 'creole/parser/creol2html_parser.py')],
     'differential monitor: whole document against the concatenation of its parts', 'Metamorphic oracle over parsed trees; a forced line break at the very end of a block is not compared.')

prop('C08', 'Macros are called as the document says',
     'Each macro occurrence (pair of tags on own lines or in a line of text, list item or table cell; single tag) calls the macro of this name exactly once, in document order, with the keyword arguments as written '
     '(True, False, None and integers converted, everything else as str) and text=the stripped text between the tags, or None for a single tag; occurrences in nowiki, preformatted text, headlines, link labels or behind a tilde call nothing. '
     'The returned string stands unchanged at the place of the occurrence, and the rest of the document does not depend on it. Macros given as dict and as attributes of an object are the same.',
     ['inputs', 'histories', 'configurations'], 'all documents of macro occurrences in all contexts with all argument values and results',
     'The tests call a few macros once; call order, count, argument conversion and placement quantify over all documents.',
     PARSE + EMIT, [('macro rules', 'creole/parser/creol2html_rules.py'), ('macro dispatch', 'creole/emitter/creol2html_emitter.py'), ('argument parser', 'creole/shared/utils.py')],
     'event-log monitor: recording macros, the log is checked against the written sequence', 'Calls are logged at the boundary (in the macro); exactly-once and order are decided by unique names and results.', observe=['calls of the macros', 'result of creole2html'])

prop('C09', 'A failing macro costs only its own place and is reported there',
     'If a macro does not exist, raises any Exception, does not accept its arguments, returns no string or is written with malformed arguments, then the html differs from the one with a working macro only at the place of the '
     'occurrence, and every other macro is still called exactly once in order. With verbose 1 (the default) and 2 there is one message [Error: ...] at this place that names the macro, contains the escaped text of the exception and, well-formed arguments assumed, no raw < or >; '
     'with verbose 0 there is nothing; with verbose 2, and only then, the tracebacks are written to the given stderr in order.',
     ['fault_sequences', 'inputs', 'configurations'], 'all sequences of failing and working macros in all contexts with every verbosity',
     'The tests let one macro fail in one paragraph; here every subset of macros fails in every context.',
     EMIT + ['creole/shared/utils.py'], [('exception handling around the macro call', 'creole/emitter/creol2html_emitter.py')],
     'fault injection into macros with a differential isolation monitor', 'Faults are injected at every macro occurrence; the unaffected rest is compared with a fault-free run.', observe=['calls of the macros', 'result of creole2html', 'text written to stderr'])

prop('C10', 'The table of contents lists exactly the headlines',
     'The first <<toc>> of a document is replaced by a nested list of all headlines up to the given depth (all without depth), in document order, nested by level, with the headline text as text and #text as link, wherever the tag stands; '
     'with a toc each headline gets an anchor with its text as name, and everything else is the document without the tag. Further toc tags are shown literally, without a toc there are no anchors, and a toc in nowiki or behind a tilde is text.',
     ['inputs', 'configurations'], 'all sequences of headlines with all levels and texts, all places, depths and spellings of the tag',
     'The tests have three documents with a toc; skipped levels, duplicate and hostile headlines and a toc at the end are not settled by them.',
     EMIT, [('toc collection and placeholder replacement', 'creole/emitter/creol2html_emitter.py')],
     'output monitor with an independent model of the toc', 'Held on the executed level sequences.')

prop('C12', 'The html converters accept every string',
     'html2creole, html2rest, html2textile and html2markdown return a string for every string of up to 3,000 characters with up to 40 (well-formed: nested; broken: 100 open) tags, however broken its html is, with the default and each of the provided '
     'handlers for unknown tags, and print nothing. The only refusals are those asked for: NotImplementedError of the raising handler for an unknown tag and Html2restException for the same link or image text with different targets.',
     ['inputs', 'configurations'], 'all strings, all four converters, all unknown tag handlers, strict or not for html2creole',
     'The tests convert clean html; unclosed and crossed tags, invalid references and attributes without values are unlimited.',
     HTML + H2, [('parser that never fails on a tag', 'creole/parser/html_parser.py'), ('emit methods for every kind', 'creole/shared/base_emitter.py')],
     'runtime exception monitor over generated tag soup', 'Held on the executed documents; nesting beyond the stated depth is limited by the recursion limit.')

prop('C13', 'The html converters conserve the visible words',
     'Each visible word of a html document (well-formed or with unclosed, unopened and crossed tags), and the alternative text of each image without title, appears in the markup of all four converters exactly once and in the same order; comments, declarations, processing instructions and attributes other than link and image '
     'targets, titles and alternative texts do not appear. Words with white space or a paragraph, heading, list item, table cell, division, ruler or line break between them stay separated, and words with nothing but typeface, link or image tags and no white space between them stay joined '
     '(script and style areas and text in a table outside of its cells are not specified).',
     ['inputs', 'configurations'], 'all html documents of text, block, list, table and inline tags',
     'White space handling at tag borders is decided by regular expressions whose combinations the tests sample with a few documents.',
     HTML + H2 + ['creole/shared/markup_table.py'], [('white space cleanup', 'creole/html_tools/strip_html.py'), ('separation of blocks', 'creole/shared/base_emitter.py')],
     'conservation monitor: uniquely numbered words through html and tag soup', 'Held on the executed documents; text of a table outside of its cells is dropped (known finding).')

prop('C11', 'Conversions have no memory and no side effects',
     'The result (or the exception) of every conversion function depends only on its arguments: the same call gives the same result whatever was converted before in the process, '
     'in a fresh process with other hash seed, working directory and locale, and while other threads convert. A conversion writes no file, starts no process, opens no network connection, prints nothing '
     '(apart from documented debug output and reports of docutils), and leaves the arguments, the working directory, the environment, sys.path and the recursion limit as they were.',
     ['histories', 'schedules', 'configurations'], 'all histories and concurrent schedules of conversions',
     'Each test converts one document in the state the tests before left behind, and never with threads; leaks between calls need a specific pair of calls.',
     PARSE + EMIT + HTML + H2 + INIT + ['creole/rest_tools/clean_writer.py', 'creole/rest_tools/pypi_rest2html.py', 'creole/shared/example_macros.py'],
     [('module level functions and default arguments', 'creole/__init__.py'), ('one emitter and parser object for each call', 'creole/__init__.py')],
     'history and concurrency monitor with fresh-process reference executions and audit hooks',
     'Held on the executed histories and schedules; the rest functions run sequential only, because docutils itself shares state machines between threads.',
     state=[('module globals and class attributes', 'must never change by a conversion', 'creole/**')])

prop('C14', 'Character references mean the character they mean in HTML5',
     'In the text of every context, in preformatted text and in attribute values, a named, decimal or hexadecimal character reference (every name of HTML5, the legacy names also without semicolon, references to '
     'no valid character as U+FFFD) gives the same result of html2creole, html2rest, html2textile and html2markdown as the character itself. An ampersand that begins no reference is an ampersand.',
     ['inputs'], 'all 2,231 names and all code points in all text and attribute contexts of all four converters',
     'The tests use about ten names and numbers; a wrong entry or a special code point shows only for its own name.',
     HTML + H2 + ['creole/html_tools/deentity.py'], [('Deentity', 'creole/html_tools/deentity.py'), ('deentity_emit', 'creole/shared/base_emitter.py')],
     'metamorphic output monitor: reference against literal character, exhaustive over the names', 'All names of HTML5 are observed once per run for each converter; contexts and numbers are sampled.')

prop('C15', 'HTML written as creole and rendered again is the same document',
     'For every html document of paragraphs, headings, nested ul/ol lists, tables with th and td cells, rulers, preformatted blocks, typefaces (strong/b/big, i/em, tt, sup, sub, u, small, del/strike), links with text or image labels, '
     'images and line breaks, with text that contains no creole marks, creole2html(html2creole(html)) has the same elements, nesting, text, link targets, image targets and alternative texts, '
     'whatever equivalent html spelling is used (tag case, other attributes, white space, quotes, character references, comments, span and div wrappers, p or div blocks in list items, attributes, code and highlighting tags in preformatted blocks, thead and tbody); with strict=True in both directions the same, except the sizes of images. '
     'The creole text is stable: html2creole(creole2html(creole)) gives it again (apart from the order of width and height of images, and line breaks inside of a typeface, which are known findings).',
     ['inputs', 'configurations'], 'all documents of the common subset of html and creole in all spellings',
     'The cross compare tests of the repository hold a few dozen fixed pairs of documents; the round trip has to hold for every combination of blocks, spellings and texts.',
     PARSE + EMIT + HTML + H2[:1] + ['creole/shared/markup_table.py'], [('parser and emitter of html', 'creole/html_tools/**, creole/emitter/html2creole_emitter.py'), ('parser and emitter of creole', 'creole/parser/creol2html_parser.py')],
     'round trip monitor: tree of the original document against the tree after both conversions', 'Held on the executed documents; two known findings, both pinned by tests of the repository.')

prop('C16', 'html2rest output is read back by docutils as the same document',
     'For every html document of paragraphs, headings (levels that go down by one step), nested lists with one or several paragraphs in an item, tables, preformatted blocks, rulers between paragraphs, strong, em and tt/code typefaces, links, images and linked images with spaces, punctuation or letters around them or directly beside each other, with text '
     'that contains no ReSt marks, docutils reads the result of html2rest without any message, and rest2html of it has the same elements, nesting, text, link and image targets, also for wide characters, one-letter headlines, repeated links and tabs. '
     'Two links with the same text (ignoring case) and different targets, and two images with the same text and different files, raise Html2restException instead of writing a broken text.',
     ['inputs'], 'all documents of the common subset of html and ReSt in all html spellings',
     'The tests compare some ReSt texts as strings; whether docutils can read indentation, underlines, grid tables and targets depends on widths, nesting and order of the blocks of each document.',
     HTML + H2[1:2] + ['creole/shared/markup_table.py', 'creole/html_tools/text_tools.py', 'creole/rest_tools/clean_writer.py'],
     [('headlines, lists, substitutions', 'creole/emitter/html2rest_emitter.py'), ('grid tables', 'creole/shared/markup_table.py')],
     'foreign implementation monitor: docutils reads the output, tree comparison with the original', 'Held on the executed documents. Nested inline markup and text with ReSt marks are not escaped by html2rest and stay out of the domain.')

prop('C17', 'html2markdown output is read back by Markdown renderers as the same document',
     'For every html document of headings, paragraphs, nested ul/ol lists (items with one or several paragraphs or code blocks), tables with a head row, preformatted blocks (with or without <code class="language-...">, also with backtick fences inside), rulers between paragraphs, nested typefaces '
     '(strong/b/big, i/em, tt/code also with backticks inside, sup, sub, u, small) with spaces, punctuation, letters or other elements around them, links and images with titles, and text without Markdown or html marks, the Markdown text of html2markdown is rendered (by commonmark, and by Python-Markdown for documents without nested lists) '
     'to the same elements, nesting, text, code, language, link targets, image targets and titles. Line breaks become white space.',
     ['inputs'], 'all documents of the common subset of html and Markdown in all html spellings',
     'The tests compare a few Markdown texts as strings; which indentation, blank lines and fences a renderer needs depends on the neighbours and the content of every block.',
     HTML + H2[3:4] + ['creole/shared/markup_table.py'], [('Markdown emitter', 'creole/emitter/html2markdown_emitter.py'), ('tables', 'creole/shared/markup_table.py')],
     'foreign implementation monitor: two Markdown renderers read the output, tree comparison with the original',
     'Held on the executed documents. Text with Markdown marks isn\'t escaped, tables without a head row and del are no CommonMark (both pinned by tests) and stay out of the domain.')

prop('C18', 'html2textile output is read back by the textile library as the same document',
     'For every html document of headings, paragraphs, nested lists of one kind (with line breaks or blocks in an item), tables with th and td cells, preformatted blocks without blank lines, typefaces (strong/big, b, i, em, sup, sub, del, ins, cite, code) with spaces, punctuation, letters or (without links) other elements around them, links, images and line breaks, and text without textile marks, '
     'the textile library renders the result of html2textile to the same elements, nesting, text, link targets, image targets and image texts (the longer one of title and alt), also for cells that begin with emphasis or end with an image and for blocks directly after tables and preformatted blocks.',
     ['inputs'], 'all documents of the common subset of html and textile in all html spellings',
     'The tests compare a few textile texts as strings; blank lines and spaces that the textile grammar needs depend on the neighbours of every block and cell.',
     HTML + H2[2:3] + ['creole/shared/markup_table.py'], [('textile emitter', 'creole/emitter/html2textile_emitter.py'), ('lists and tables', 'creole/shared/base_emitter.py')],
     'foreign implementation monitor: the textile library reads the output, tree comparison with the original',
     'Held on the executed documents. Rulers, mixed nested lists and blank lines in preformatted blocks are not supported by the library and stay out of the domain.')

prop('C19', 'Every unknown html tag goes to the chosen handler, exactly once and in order',
     'For every html document of known elements and unknown elements (any name and attributes, nested, empty, in paragraphs, headings, list items and table cells) html2creole, html2rest, html2textile and html2markdown call the given unknown_emit exactly once for each unknown element, in the order of the source, '
     'with its tag and attributes, put the result in the place of the element, and never call it for known tags; without unknown_emit the content is kept without the tags. raise_unknown_node raises NotImplementedError naming the tag if and only if there is an unknown tag, and use_html_macro, preformat_unknown_nodes and '
     'escape_unknown_nodes keep the content between a start tag with all escaped attributes and an end tag (one closed tag if empty), wrapped in <<html>>...<</html>> or <<pre>>...<</pre>> or escaped, and creole2html with the html macro gives the html macro form back as the same html.',
     ['inputs', 'configurations'], 'all documents with unknown tags in all contexts, every shipped handler and recording handlers, all four converters',
     'The tests show each handler one or two tags; whether a tag is lost or handled twice depends on its context, nesting and the emitter.',
     ['creole/shared/unknown_tags.py', 'creole/shared/base_emitter.py'] + HTML + H2, [('handlers', 'creole/shared/unknown_tags.py'), ('dispatch to the handler', 'creole/shared/base_emitter.py')],
     'call log of a recording handler compared with the source; output with each shipped handler compared with the recorded places',
     'Held on the executed documents. An unknown element at the beginning of a paragraph and in headings is left out of the round trip only (creole reads a macro there as a block, headings are plain text).')

prop('C20', 'rest2html gives the ReSt document as clean html without files and raw html',
     'For every well-formed ReSt document of headings, paragraphs, bullet, enumerated, definition and field lists, line blocks, block quotes, literal and doctest blocks, code, grid, simple and list tables, images, figures, notes, containers, comments and transitions with inline markup (typefaces, literals, roles, links of all kinds, '
     'substitutions, escapes), rest2html returns well-formed html with exactly these elements, texts and targets (h6 for deeper levels, quotes and containers without an element, thead and tbody left out, line breaks in line blocks), and no words are glued together. '
     'For every document, also with broken markup and any directive, it raises nothing (but the severe error of docutils about inconsistent title levels), the html has no div, class or id and only tags of the writer, the text of raw directives never appears as html, and no include, raw or csv-table directive or role opens a file or url.',
     ['inputs'], 'all ReSt documents; the tree for well-formed ones of the listed constructs',
     'The tests compare about 20 outputs as strings; every docutils construct and nesting reaches other visit methods, and directives that read files are not tested.',
     ['creole/rest_tools/clean_writer.py'], [('translator and settings', 'creole/rest_tools/clean_writer.py')],
     'output monitor with an independent ReSt generator and tree model; audit hook on file access with a canary file',
     'Held on the executed documents. Paragraphs in items, definitions and cells are compared without their p element (compact lists are a decision of docutils).')

prop('C21', 'pypi_rest2html accepts exactly documents without problems and bad targets',
     'For every well-formed ReSt document, pypi_rest2html raises TransformError exactly if a link or image target has a scheme that is not in ALLOWED_SCHEMES (in any spelling; no scheme is not allowed), and for every other document '
     'SystemMessage exactly if docutils has a warning or error for it. What it returns for accepted documents is well-formed html with all the words and targets of the body in their order, without raw html and without a target of another '
     'scheme (except internal anchors), as str or as bytes in the given encoding. No directive or role opens a file or url.',
     ['inputs'], 'all ReSt documents',
     'The tests pass a few README texts; schemes in all places of a target (references, images, figures, substitutions, nested blocks) are not tested.',
     ['creole/rest_tools/pypi_rest2html.py'], [('scheme check and settings', 'creole/rest_tools/pypi_rest2html.py')],
     'output and exception monitor against the generated document model and docutils messages; audit hook on file access',
     'Held on the executed documents. Document title and docinfo are not part of the returned body.')

prop('C22', 'The command line tools write exactly the conversion or change nothing',
     'For each of the tools creole2html, html2creole, html2rest and html2textile, every source file, codec, argument order, locale and file name, the exit status is 0 exactly if the source can be read, is a text of the codec, can be converted, '
     'and the result can be encoded and written; then the destination file has exactly the bytes of the encoded conversion (of the exact decoded text, no newline translation) also over an existing, longer, linked or the source file itself. '
     'In every other case that fails before the writing (missing source, bytes that are no text, unknown codec, conversion error, not encodable result, wrong arguments, missing directory) it exits with another status, says nothing about success '
     'and leaves every file as it was, and a write fault at any byte is never reported as success nor changes another file.',
     ['inputs', 'configurations', 'fault_sequences'], 'all source files, codecs, destinations and write faults',
     'The tests convert four ascii files in utf-8 into existing files; failures, codecs and faults are not tested.',
     ['creole/cmdline.py'], [('CreoleCLI.convert', 'creole/cmdline.py')],
     'file system monitor: snapshot comparison of forked runs with generated files, codecs and size-limit write faults at every offset', 'Held on the executed runs. A write fault leaves a truncated destination (there is no temporary file), only the status is specified then.')

prop('C23', 'Generated READMEs follow the source through every history',
     'In every history of edits of the creole README, time changes, updates, damage of the generated files and aborted writes, update_rst_readme and update_markdown_readme leave exactly the conversion of the stripped source plus the note with the name and the local time of the source, '
     'do not touch a file that has this content with any time, and write nothing and fail if the source is unreadable, has unknown tags or its ReSt (with the note) does not render; an aborted write is never reported as success. '
     'assert_rst_readme and assert_markdown_readme pass for an up-to-date file, raise AssertionError if its content differs and change no README (the markdown functions write the intermediate html beside it). '
     'get_long_description returns the ReSt, and for a source that fails it raises or exits in the strict modes of setup.py and otherwise returns the error with the source.',
     ['histories', 'inputs', 'fault_sequences'], 'all histories of these operations over all README contents',
     'The tests update the README of the project itself once, unchanged, and one not valid source; damaged, missing and stale files are not tested.',
     ['creole/setup_utils.py'], [('_write_readme, _remove_note, _generate_*_readme', 'creole/setup_utils.py')],
     'history monitor: model of the directory compared after every operation, write faults by size limits', 'Held on the executed histories. Changes inside of the note only and line ends of the generated files are not specified.',
     state=(('generated README', 'conversion + separator + note', 'creole/setup_utils.py'),))

prop('C24', 'Tables keep their rows, columns and cells in every target language',
     'For every html table of rows with any number of cells, with empty cells and rows, head cells anywhere, row groups and cells with inline markup, line breaks, paragraphs or nested tables, the creole, ReSt, Markdown (with a head row) and textile text '
     'that the html2* functions write is read by creole2html, docutils, Python-Markdown and textile as one table with the same rows and the same words in the same row and column; short rows are filled up to the width of the table '
     '(not in textile), and in creole and textile head cells stay head cells. Every history of add_tr, add_th and add_td on a MarkupTable gives lines of equal width with exactly these cells, and the same again when it is asked twice.',
     ['inputs', 'histories'], 'all tables without the column mark in a cell',
     'Tests have four fixed tables; ragged rows, empty cells, wide characters and markup in head cells are not tested.',
     ['creole/shared/markup_table.py', *H2[:1], 'creole/shared/base_emitter.py', 'creole/parser/creol2html_rules.py'], [('MarkupTable', 'creole/shared/markup_table.py'), ('table_emit, tr_emit, td_emit, th_emit', 'creole/shared/base_emitter.py')],
     'cross-reader output monitor: four renderers read the table back; line checker for the table writer', 'Held on the executed tables. Markdown tables without a head are no tables (pinned by tests) and are only checked for the words (C13).')

prop('C25', 'Debugging only observes, and a document tree can be written again and again',
     'For every document and all options, each conversion with debug=True gives the same result or the same exception as without it, and parse_html gives the same tree. A tree of CreoleParser or parse_html that is printed with debug() or debug_tree() and written by any '
     'emitters in any order, with and without debug, any number of times, stays the same and gives each time the result of the plain conversion.',
     ['inputs', 'configurations', 'histories'], 'all documents, options and orders of emitters on one tree',
     'No test uses debug=True with anything but a few documents, and none writes a tree twice.',
     INIT + ['creole/shared/document_tree.py', 'creole/shared/base_emitter.py', 'creole/parser/html_parser.py', 'creole/parser/creol2html_parser.py'], [('debug flags', 'creole/__init__.py'), ('DebugList', 'creole/shared/document_tree.py')],
     'differential output monitor (with and without debug; shared and fresh tree) with tree snapshots', 'Held on the executed documents; stdout must be able to take the text.')

prop('C26', 'The bundled example macros show exactly the text',
     'Called directly or from block and inline macros in creole, as module or dict, html gives its text unchanged, and pre and code (for every file extension, known or not, and with or without pygments) raise nothing and return well-formed html of pre, and for code '
     'br, div and span with class attributes only, whose text is the given text (code: without blank lines at its borders).',
     ['inputs', 'configurations'], 'all texts and extensions',
     'The tests call each macro once or twice with a simple text.',
     ['creole/shared/example_macros.py', 'creole/shared/utils.py'], [('html, pre, code', 'creole/shared/example_macros.py'), ('get_pygments_lexer', 'creole/shared/utils.py')],
     'output monitor: XML parser and text extraction over generated source code and hostile texts', 'Held on the executed texts. code doubles the line ends with br elements (pinned by tests).')

prop('C27', 'A creole document means the same in html, ReSt, Markdown and textile',
     'For every creole document whose blocks and inline elements the target language can express, what html2rest, html2markdown and html2textile make of the html that creole2html returns for it is read by docutils, commonmark / Python-Markdown and textile '
     'as a document with the same headings, paragraphs, lists, tables, preformatted blocks, typefaces, link and image targets, titles and text.',
     ['inputs'], 'all documents of the common subset of the languages',
     'The tests compare the text of a few short documents with expected text, and never read ReSt, Markdown or textile back.',
     ['creole/__init__.py', 'creole/emitter/creol2html_emitter.py', 'creole/emitter/html2rest_emitter.py', 'creole/emitter/html2markdown_emitter.py', 'creole/emitter/html2textile_emitter.py'],
     [('creole2html, html2rest, html2markdown, html2textile', 'creole/__init__.py')],
     'differential monitor: the document of the generator against the trees third party renderers make of the end of the pipeline', 'Held on the executed documents. The words hold no marks of the target language: none of the emitters escapes text.')

prop('C28', 'The cost of a conversion is bounded by the size of the document',
     'No sequence of marks, tags, macro tags or white space makes creole2html or a html2* converter much slower than ordinary text of the same length: the time stays within a low degree polynomial of the length (3,000 characters take far less than 5 seconds of CPU time). '
     'For a document that is written several times one after the other, the work and the length of the result grow in proportion to the number of repetitions (a table of contents aside).',
     ['inputs'], 'all documents',
     'Tests use small documents, where a cubic or exponential search of a regular expression takes no time.',
     PARSE + HTML, [('regular expressions', 'creole/parser/creol2html_rules.py'), ('regular expressions', 'creole/html_tools/strip_html.py'), ('cutting out <pre> areas', 'creole/parser/html_parser.py')],
     'CPU time, call count and output size monitors on pumped documents', 'Held on the executed documents. The limit is ten times the time of the slowest one and scaled by a calibration run, a measurement counts when three in a row exceed it; growth is judged by the number of calls, not by time.')

prop('C29', 'Unclosed html elements end with the element around them',
     'For every html document of nested elements it makes no difference whether the end tag of an element is omitted that ends together with the element around it (or with the document), whether the end tag of the inner of two inline elements stands behind the one of the outer, '
     'in which case end tags are written, and whether there are end tags of inline elements that are not open: parse_html gives the same tree and each of the four converters the same text or the same exception as for the document with all end tags in order.',
     ['inputs'], 'all html documents with unclosed, crossed and unopened elements',
     'The tests have three documents with a missing end tag and compare only the creole text of them.',
     HTML, [('end tags', 'creole/parser/html_parser.py')],
     'metamorphic monitor: the same document with and without its end tags', 'Held on the executed documents. Unopened end tags of block elements and white space beside misplaced tags are not included (strip_html removes white space before tags are paired).')

prop('C30', 'A reported README difference, applied to the old text, gives the new text',
     'For all pairs of texts unified_diff(old, new) is empty exactly if both are the same, and otherwise a well-formed unified diff, with the file name in its two head lines, whose application to the old text gives exactly the new one, also if a text does not end with a newline. '
     'assert_rst_readme() and assert_markdown_readme() raise nothing exactly if the README without its note is the conversion of its source, and otherwise an AssertionError with the diff from the one to the other.',
     ['inputs'], 'all pairs of texts; all READMEs and edits of them',
     'No test looks at a diff; it depends on every combination of lines, hunks and missing newlines.',
     ['creole/shared/diff_utils.py', 'creole/setup_utils.py'], [('diff', 'creole/shared/diff_utils.py'), ('assertions', 'creole/setup_utils.py')],
     'differential monitor: a strict own reader and GNU patch apply the reported diff', 'Held on the executed pairs. That a diff is the smallest one is not claimed.')

prop('C31', 'Block rules given by the caller decide which kinds of blocks there are',
     'For every creole text creole2html(block_rules=BlockRules(blog_line_breaks=mode), blog_line_breaks=mode) gives the result without block_rules, also if one object is used for many conversions, and leaves the object unchanged. '
     'Without the rules of one or more kinds of blocks (headline, separator, list, table, pre, macro) the result is the same for every document without such blocks; for every other document (with blog line breaks) it has no element of such a block and still all words in order.',
     ['inputs'], 'all creole documents and subsets of the block rules',
     'No test passes block rules at all.',
     PARSE + INIT, [('block rules', 'creole/parser/creol2html_rules.py'), ('dispatch', 'creole/parser/creol2html_parser.py')],
     'differential and conservation monitor: conversions with given block rules', 'Held on the executed documents. Wiki line breaks before markup of removed kinds are not specified.')

prop('C32', 'Documents survive chains of the converters and of real renderers',
     'Documents with headings, paragraphs, lists, tables with a head row, preformatted blocks with several lines, typefaces, links and images keep structure, text and targets in every sequence of steps '
     '(html -> creole -> html with default, strict or wiki settings; html -> ReSt -> html with rest2html, pypi_rest2html or docutils html4/html5 writers; html -> markdown -> html with a CommonMark or a Markdown library; html -> textile -> html with the textile library): '
     'the html that one renderer writes is understood by every html2* converter, so that the result after each step has the elements of the document (inline code only if all languages of the chain have it; line breaks, sizes and titles are not compared).',
     ['inputs', 'histories'], 'all documents of the common subset and all sequences of 2 to 5 steps',
     'Tests compare single conversions of short hand written html; none feeds the html of docutils, commonmark, Markdown or textile into the converters.',
     PARSE + INIT, [('html parser', 'creole/parser/html_parser.py'), ('emitters', 'creole/emitter/'), ('ReSt tools', 'creole/rest_tools/')],
     'chain monitor: structure and text of the html after every step against the model of the document', 'Held on the executed chains. Words of the documents have no digits and few special characters, so that no renderer replaces them.')

prop('C33', 'The document trees of both parsers are complete and consistent',
     'For every html document of nested elements the tree of parse_html has exactly the elements of the document (tbody is left out, a pre area is one node), in their order and nesting, with all attributes and their values (references replaced; headlines: the level), with the list level '
     'of lists and items, and with all words of the text at their place, however tags, attributes and white space are written. For every html and creole document, however broken, the tree of parse_html and CreoleParser has each node once, each child names its parent, texts have no children, '
     'the rows, cells and items of creole are in tables, rows and lists, all items of a list have the same level, and no typeface or link is inside of itself.',
     ['inputs'], 'all html and creole documents',
     'The tests look only at what is written from the trees of short documents.',
     PARSE + HTML + ['creole/shared/document_tree.py'], [('nodes', 'creole/shared/document_tree.py'), ('html parser', 'creole/parser/html_parser.py'), ('creole parser', 'creole/parser/creol2html_parser.py')],
     'reference monitor: the tree that was written against the tree that was parsed, and an invariant walker', 'Held on the executed documents. Where white space around tags ends up is not specified (words are compared, not the spaces between them).')

FIXED = [
    ('attribute values were written', 'C02'),
    ('escape the target of a sized image', 'C02'),
    ('escape headlines in the table', 'C02'),
    ('<<toc>> with a depth that is not', 'C01'),
    ('escape the text of an exception', 'C09'),
    ('escape the value shown', 'C09'),
    ("don't put the default toc macro", 'C11'),
    ('a text line after a list item', 'C04'),
    ('with wiki style line breaks a block', 'C03'),
    ('a list of the other kind', 'C03'),
    ('an empty table cell was dropped', 'C24'),
    ('cells of table rows with different', 'C24'),
    ('a table column with only empty', 'C24'),
    ('a empty table head cell', 'C24'),
    ('nested tables lost cells', 'C12'),
    ('a line break in a table cell broke Markdown', 'C17'),
    ('block elements and backslashes inside of a div', 'C13'),
    ('backslashes at the begin and end of a table cell', 'C13'),
    ('the rest of a html document was lost after', 'C13'),
    ('the end of a html document was lost', 'C13'),
    ('text after a <hr>', 'C13'),
    ('unknown marked sections', 'C12'),
    ('invalid, upper case hex', 'C14'),
    ("a ampersand that isn't part", 'C14'),
    ('more than six equal signs', 'C02'),
    ('<h0> crashed', 'C12'),
    ('attributes without a value', 'C12'),
    ('list items that are empty or not', 'C12'),
    ('a html tag with the name', 'C12'),
    ('html tags with the name', 'C12'),
    ('tags with the name of a internal', 'C12'),
    ('anchors without href', 'C12'),
    ('images without src', 'C12'),
    ('html2markdown changed percent-encoded', 'C17'),
    ('html2markdown lost parts of or crashed', 'C17'),
    ('attributes of masked unknown tags', 'C19'),
    ('words were glued together if there is a tab', 'C13'),
    ('<ins> was handled', 'C13'),
    ('text directly before or after', 'C13'),
    ('html2markdown removed the space', 'C13'),
    ('a stale, truncated or missing README', 'C23'),
    ('rest2html wrote end tags', 'C20'),
    ('get_long_description() passed', 'C23'),
    ('a failed conversion on the command line', 'C22'),
    ('the code macro crashed', 'C26'),
    ('a blank line with spaces', 'C07'),
    ('blank lines at the begin of a pre', 'C05'),
    ('a headline without text swallowed', 'C04'),
    ('an empty list item swallowed', 'C03'),
    ('a line break after a line that ends', 'C06'),
    ('<<toc depth=...>> listed', 'C10'),
    ('a nested table broke the row', 'C12'),
    ('html2rest wrote titles', 'C16'),
    ('html2markdown crashed on urls', 'C12'),
    ('words were glued together if there is only', 'C13'),
    ('words were glued together at the border', 'C13'),
    ('a <pre> area swallowed', 'C13'),
    ('html2rest wrote link and image targets', 'C13'),
    ('the space after an image tag', 'C13'),
    ('spaces between block elements (e.g.', 'C15'),
    ('html2creole broke link labels', 'C15'),
    ('spaces after the closing brackets', 'C05'),
    ('blank lines at the begin of a <pre>', 'C15'),
    ("html2creole didn't escape a line of closing", 'C15'),
    ('a html table directly after a table', 'C15'),
    ('a <pre> area with several lines', 'C15'),
    ('html2rest used the marks of a inner list', 'C16'),
    ('a comment at the begin of a nested html', 'C15'),
    ('spaces around upper case html block', 'C15'),
    ("a <pre> block directly after a comment", 'C15'),
    ('html2rest headlines and tables with wide', 'C16'),
    ('html2rest wrote headlines of one character', 'C16'),
    ('html2rest lost the indentation of the first', 'C16'),
    ('html2rest moved the text after a line break', 'C16'),
    ('html2rest wrote a line break in a table cell', 'C16'),
    ('tabs in table cells', 'C16'),
    ('html2rest wrote link names', 'C16'),
    ("html2markdown wrote tt, u and small", 'C17'),
    ("html2markdown lists in a ordered", 'C17'),
    ("html2markdown wrote paragraphs and code blocks", 'C17'),
    ("html2markdown joined the paragraphs", 'C17'),
    ("html2textile wrote the block after a preformatted", 'C18'),
    ("html2textile wrote the block after a table", 'C18'),
    ("html2textile table cells that begin", 'C18'),
    ("html2textile wrote line breaks in lists", 'C18'),
    ("html2textile ended the list after", 'C18'),
    ("html2rest headlines of three", 'C16'),
    ("html2markdown removed the spaces at the border of code", 'C13'),
    ("html2markdown code with double backticks", 'C17'),
    ("html2markdown wrote the marks of nested code", 'C13'),
    ("html2textile glued words", 'C13'),
    ("a incomplete character at the end", 'C22'),
    ("a README with broken bytes", 'C23'),
    ("update_rst_readme() wrote a not valid", 'C23'),
    ("links with text, images, macros", 'C24'),
    ("html2markdown tables with a head only", 'C24'),
    ('html2markdown took an unknown <list>', 'C19'),
    ('html2markdown wrote titles with quote', 'C17'),
    ('a macro tag was taken for the begin', 'C08'),
    ("rest2html: no classes", 'C20'),
    ("rest2html: don't glue", 'C20'),
    ('text with many < and without >', 'C28'),
    ('many macro tags, unclosed links', 'C28'),
    ('the text <<toc>> in the result', 'C08'),
    ('a ">" in the value of a html', 'C17'),
    ('the mark of a missing newline', 'C30'),
    ('the diff of texts with form feeds', 'C30'),
    ('a own macro with the name toc', 'C08'),
    ('the lines of a <pre> with attributes', 'C15'),
    ('the tags of <pre><code> areas', 'C32'),
    ('html2markdown took the > in an attribute', 'C32'),
    ('a nested list in e.g. a <div>', 'C15'),
    ('html2rest wrote <pre> tags', 'C16'),
    ('a <div> in a list item ended', 'C15'),
    ('html2rest ended a list item', 'C16'),
    ('html2textile ended a list after e.g.', 'C18'),
    ('the text after a <br> in a headline', 'C15'),
    ('html2markdown joined a paragraph', 'C17'),
    ('html2rest wrote a paragraph without <p>', 'C16'),
    ('empty typefaces and typefaces', 'C15'),
    ('html2rest links with a colon', 'C16'),
    ('html2rest wrote linked images', 'C16'),
    ('typefaces, links, code and images beside', 'C16'),
    ('html2markdown joined code beside', 'C17'),
]
