#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays easy to edit)."""
import json, pathlib
F = "markflow/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": [F + f for f in files],
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": F + b} for a, b in mech],
        "observe_at": [observe] if isinstance(observe, str) else observe, "hook_needed": hook}})

API = "return value of markflow.reformat_markdown_text(text, width)"
CLI = "process run of `python -m markflow`: files, exit status, stdout"

prop("C01", "No text is lost, duplicated or reordered",
 "Whenever reformatting a text returns a result, the letters of the result, read from first to last, are exactly the letters of the input in the same order, as are the other characters that are never block markup (quotes, brackets, parentheses, slashes, exclamation marks, commas, semicolons, question marks, ampersands, backslashes). Only whitespace, list numbers, bullets, quote markers, heading and thematic-break characters, table borders and code fences may be added, changed or removed. It holds for every document, malformed or not, and every line length.",
 ["inputs", "configurations"], "every text, every line length (including infinity)",
 "The tests compare about 60 fixed documents; a dropped cell, label or code line needs a construct, a neighbour or a line length none of them contains.",
 ["reformat_markdown.py", "parser.py", "detectors", "formatters", "_utils/textwrap.py"],
 [("every line belongs to one section and every section re-emits its content", "reformat_markdown.py:_reformat_markdown_text"), ("wrap splits and re-joins text without dropping pieces", "_utils/textwrap.py")],
 [API])

prop("C02", "The rendered document does not change",
 "For every document built from the constructs the README lists (paragraphs, ATX and setext headings, tight lists, block quotes, fenced and indented code, link reference definitions, thematic breaks, tables), with blocks separated by blank lines, list items (each one block, or a paragraph directly followed by a nested list, quote or fenced block) and quotes nesting such blocks, and spaces rather than tabs, reformatting succeeds at every line length and the result renders to the same CommonMark document as the input. The only rendering differences allowed are the documented ones: whitespace runs outside code, trailing whitespace, list start numbers, and ATX headings written without the space.",
 ["inputs", "configurations"], "every combination, order and nesting of the listed blocks; every line length",
 "Render comparison is done by the tests for a few fixed files at width 88; combinations of blocks, nesting and narrow widths are where a reflow turns text into a list, heading or code.",
 ["reformat_markdown.py", "parser.py", "detectors", "formatters", "_utils/textwrap.py"],
 [("detectors agree with CommonMark on the kind of each block", "detectors/_lines.py"), ("formatters change only layout", "formatters")], [API])

prop("C03", "Output is a fixed point or is refused",
 "Whenever reformatting returns a result, reformatting that result again with the same line length returns it unchanged. A text whose reformatted form is not stable is refused with the documented inconsistency error instead of being returned.",
 ["inputs", "configurations", "histories"], "every text and line length; any number of repeated applications",
 "Tests re-run the formatter on their own fixed outputs only; instability appears for particular neighbours, widths or trailing blank lines.",
 ["reformat_markdown.py", "__main__.py"],
 [("second pass comparison", "reformat_markdown.py:reformat_markdown_text")], [API])

prop("C04", "Every text gets an answer: a result or a documented error",
 "For every text and every line length, reformatting terminates and either returns a string or raises one of the two documented exceptions (wrongly formatted Markdown, inconsistent reformat); no other exception escapes. Text nested too deeply to be processed is refused as wrongly formatted; nothing that isn't nested deeply is refused for that reason. The work done grows at most polynomially with the size of the text, including for deeply nested quotes and lists.",
 ["inputs", "configurations"], "every text over the line alphabet, nesting depth and line length",
 "Tests only feed documents on which the formatter works; crashes need a construct at end of file, an unclosed or malformed construct, or a depth.",
 ["reformat_markdown.py", "parser.py", "detectors", "formatters", "_utils/textwrap.py", "exceptions.py"],
 [("SPLITTERS loop makes progress on every iteration", "parser.py:parse_markdown"), ("documented exceptions", "exceptions.py")], [API, "number of interpreter steps taken in markflow code"])

prop("C05", "Paragraph text is filled exactly to the line length",
 "The words of a paragraph or setext heading are laid out greedily: each line holds as many of the following words as fit in the line length, a line is longer than the limit only if it consists of a single unbreakable piece, and no break is made where the next piece would have fitted. Breaks happen only at whitespace, after an explicit HTML line break (which always ends its line), or between the two halves of a link; a word that would start another kind of block at the beginning of a line is never put there but stays with the word before it.",
 ["inputs", "configurations"], "every sequence of words, code spans, links, breaks and marker-like words; every line length from 1 to infinity",
 "Tests wrap a handful of sentences at one width each; off-by-one and piece-boundary errors depend on exact length/width coincidences.",
 ["_utils/textwrap.py", "formatters/paragraph.py", "formatters/setext_heading.py"],
 [("join", "_utils/textwrap.py:join"), ("code_split, link_split, newline_split, space_split", "_utils/textwrap.py")], [API])

prop("C06", "Inline code and link targets survive reflow intact",
 "Wherever an inline code span appears, its content is reproduced character for character on a single line (line ends inside it become one space). The destination and title of every inline link or image and the label of every reference link are reproduced unchanged, the text around them keeps or lacks its adjoining space exactly as written, and a link is broken across lines only at whitespace or directly after '](' or ']['.",
 ["inputs", "configurations"], "every adjacency of code spans, links, images, punctuation and words; every container (paragraph, heading, list item, quote) and line length",
 "Tests have a few hand-picked sentences; adjacency of spans, escaped backticks and nested brackets at a wrap boundary are not reached.",
 ["_utils/textwrap.py"],
 [("code_split keeps a span as one unevaluated piece", "_utils/textwrap.py:code_split"), ("link_split keeps destination as one unevaluated piece", "_utils/textwrap.py:link_split")], [API])

prop("C07", "Output whitespace is normalised",
 "Every result uses only '\\n' line ends, ends with exactly one newline, and no line carries trailing whitespace except the two-space hard break of a paragraph that was written with one; blank lines are completely empty. Leading and interior blank lines between blocks are neither added (except the documented one before a setext heading that follows a block quote) nor removed.",
 ["inputs", "configurations"], "every text, every line-end style, every line length",
 "Tests check specific files; trailing spaces appear with empty headings, empty items, empty quotes and code lines inside containers.",
 ["reformat_markdown.py", "formatters", "__main__.py"],
 [("final rstrip + newline", "reformat_markdown.py:reformat_markdown_text"), ("per formatter rstrip/strip", "formatters")], [API])

prop("C08", "Parsing partitions the document, unambiguously",
 "Parsing any non-empty document yields sections which, concatenated in order, are exactly the input lines, with no section empty. At every position at most one kind of section claims the text, so the outcome does not depend on the order in which the kinds are tried.",
 ["inputs", "histories"], "every sequence of lines; every starting position in it; every order of the detectors",
 "IMPLEMENTATION.md says exclusivity 'isn't really tested'; it is a statement about every document and pair of detectors.",
 ["parser.py", "detectors"],
 [("SPLITTERS loop", "parser.py:parse_markdown"), ("line classifiers", "detectors/_lines.py")],
 ["markflow.parser.parse_markdown(lines)", "markflow.parser.SPLITTERS"])

prop("C09", "Code blocks keep their content",
 "The content lines of a fenced or indented code block, at top level or inside list items and block quotes, come out in the same order with the same indentation relative to the block and the same characters, apart from trailing whitespace; they are never wrapped, renumbered, escaped or merged. The fence character and length, and the info string apart from surrounding whitespace, are kept, a closing fence only ends a block if it is of the same character and at least as long as the opening one, and an unclosed block keeps all its lines.",
 ["inputs", "configurations"], "every short sequence of content lines (including lines that look like any other block or fence), fence character/length, container and line length",
 "Tests contain five code blocks; content that looks like a fence, list, quote or heading, and unclosed or longer fences are not covered.",
 ["detectors/fenced_code_block.py", "detectors/indented_code_block.py", "formatters/fenced_code_block.py", "formatters/indented_code_block.py", "formatters/lists.py"],
 [("fence matching", "detectors/fenced_code_block.py:split_fenced_code_block"), ("verbatim output", "formatters/fenced_code_block.py")], [API])

prop("C10", "Tables keep every cell and are aligned",
 "A reformatted table has the same rows and columns, with the same cell texts (escaped pipes included) and the same column alignments as the input; all its lines have equal length, every cell has at least one space on both sides, and cells are padded according to their column's alignment (headers of unaligned columns centred), whatever the line length. A table whose delimiter row is missing or malformed or whose rows have differing numbers of columns is refused with the wrong-format error naming the offending line.",
 ["inputs", "configurations"], "every table up to a small number of rows/columns over cells of varied width, with escaped pipes, with or without outer trailing pipes; every alignment combination",
 "Two tables are tested; escapes, empty cells, ragged rows and odd paddings need the product of shapes.",
 ["detectors/table.py", "formatters/table.py"],
 [("column width and alignment computation", "formatters/table.py:MarkdownTable.reformatted")], [API])

prop("C11", "Lists are numbered, marked, indented and nested correctly",
 "In a reformatted list every item of one level carries the same bullet as the first, or consecutive numbers starting from the first item's number; every item keeps its nesting level and its text, and continuation lines and nested content are indented to the column of the text of their own item. This holds for any number of items (across changes in the number of digits), any nesting and any original indentation that CommonMark accepts.",
 ["inputs", "configurations"], "every tree of items up to a bound, every bullet/number spelling and original indentation, item counts up to three digits, every line length",
 "Tests hold about ten lists with at most nine items; digit rollover, mixed nesting and odd indentation are combinatorial.",
 ["detectors/bullet_list.py", "detectors/ordered_list.py", "formatters/lists.py"],
 [("_split_list / _dedent_entries", "formatters/lists.py"), ("toplevel_indent", "formatters/lists.py:MarkdownOrderedList.reformatted")], [API])

prop("C12", "Headings keep their level and text",
 "An ATX heading is emitted as its run of octothorpes, one space and its stripped text, whatever its indentation, spacing or length (never wrapped); an empty one is emitted as the octothorpes alone. A setext heading keeps its level and words, is wrapped like a paragraph, and its underline consists of its original character repeated to the length of the longest heading line.",
 ["inputs", "configurations"], "every level, spacing, text and underline; headings of one to several lines; every line length",
 "Tests cover five headings.",
 ["detectors/atx_heading.py", "detectors/setext_heading.py", "formatters/atx_heading.py", "formatters/setext_heading.py"],
 [("depth/content", "formatters/atx_heading.py"), ("underline length", "formatters/setext_heading.py:MarkdownSetextHeading.reformatted")], [API])

prop("C13", "Thematic breaks stay thematic breaks of the right width",
 "Every spelling of a thematic break (three or more of one of '-', '_', '*', with any spacing and up to three leading spaces) is emitted as its own character repeated to the available width (the line length minus the indentation of its containers), as exactly three when the line length is infinite, and never shorter than three. A break takes precedence over a list item, and a line of dashes directly under a paragraph is a heading underline instead; dashes with spaces in between are a break there, too, and keep (single) spaces in between up to the width, so that they don't become an underline.",
 ["inputs", "configurations"], "every character, count, spacing and position (after paragraph, list, quote, table; nested), every line length",
 "Three unspaced spellings at two widths are tested.",
 ["detectors/thematic_break.py", "detectors/_lines.py", "formatters/thematic_break.py"],
 [("is_thematic_break_line", "detectors/_lines.py"), ("char * width", "formatters/thematic_break.py")], [API])

prop("C14", "Link reference definitions keep label, destination and title",
 "A link reference definition is re-emitted with the same label, destination and title; label and destination are never wrapped or separated except where the author put a line break between them, and a title stays on its line if it still fits there and otherwise is wrapped onto following lines. Text following a definition that is not a valid title is not absorbed into it, and following blocks are left intact.",
 ["inputs", "configurations"], "every combination of label, destination, title quoting/escaping, line splits, following lines and line length",
 "One fixture file at width 88; narrow widths and unterminated or escaped quotes are not reached.",
 ["detectors/link_reference_definition.py", "formatters/link_reference_definition.py"],
 [("split_link_reference_definition", "detectors/link_reference_definition.py"), ("reformatted", "formatters/link_reference_definition.py")], [API])

prop("C15", "Containers are transparent",
 "Quoting a document, or putting a blank-line-free document into a list item, and reformatting gives the same lines as reformatting the document at the correspondingly reduced line length and then quoting or indenting the result. Quote depth and lazily continued quote lines are preserved.",
 ["inputs", "configurations"], "every document over the block alphabet up to a depth, every container (quote with or without space, bullet or numbered item), nested up to two containers, every line length",
 "One block quote and a few list paragraphs are tested; the congruence is a statement over all nested contents.",
 ["formatters/block_quote.py", "formatters/lists.py", "detectors/block_quote.py"],
 [("recursive reformat at sub width", "formatters/block_quote.py:MarkdownBlockQuote.reformatted"), ("_dedent_entries + recursive reformat", "formatters/lists.py")], [API])

prop("C16", "Blocks separated by a blank line are formatted independently",
 "Reformatting two self-contained blocks separated by blank lines gives the reformatted first block, the same number of blank lines, and the reformatted second block; no block's layout depends on what precedes or follows it.",
 ["inputs", "configurations"], "every ordered sequence of blocks from the block alphabet (up to three), one to two blank lines, every line length",
 "Tests use fixed files; leakage between sections needs a particular ordered pair.",
 ["parser.py", "reformat_markdown.py", "detectors"],
 [("section iteration", "reformat_markdown.py:_reformat_markdown_text")], [API])

prop("C17", "Reformatting at several line lengths loses nothing",
 "A document reformatted successively at any sequence of line lengths still renders as the original does, and for documents without link reference definitions the result depends only on the last line length, exactly as if the original had been reformatted at that length directly.",
 ["histories", "inputs", "configurations"], "every document of the block alphabet and every history of line lengths (reachable-state graph)",
 "Tests only repeat the same width.",
 ["reformat_markdown.py", "_utils/textwrap.py", "formatters"],
 [("wrap joins lines before filling", "_utils/textwrap.py:wrap")], [API])

prop("C18", "Calls are independent and leave logging as they found it",
 "The outcome of reformatting a text at a line length does not depend on what was reformatted before in the same process, whether those calls succeeded or failed. After every call, successful or failed, the process-wide logging configuration (level constants, logger levels, handlers, filters) is what it was before, and messages about nested or second-pass content are not reported at the informational level.",
 ["histories", "inputs"], "every sequence of calls up to a depth over documents of all kinds, including refused ones",
 "Tests run each document once and never look at logging.",
 ["reformat_markdown.py", "_utils/_utils.py", "detectors/fenced_code_block.py"],
 [("logger level mute/restore", "reformat_markdown.py:reformat_markdown_text"), ("redirect_info_logs_to_debug", "_utils/_utils.py")],
 [API, "logging module state", "log records emitted"],
 state=[("logging.INFO", "process-wide constant that is patched", "markflow/_utils/_utils.py"), ("logger level", "level of markflow.reformat_markdown", "markflow/reformat_markdown.py")])

prop("C19", "Concurrent calls do not interfere",
 "Reformatting different texts from several threads of one process at the same time gives each caller exactly the result (or documented error) and the log messages it would have had alone, under every interleaving, and leaves the logging configuration unchanged.",
 ["schedules", "inputs"], "every interleaving of two (three) calls up to a preemption bound at source-line granularity",
 "The tests are single threaded.",
 ["reformat_markdown.py", "_utils/_utils.py", "detectors", "formatters"],
 [("no state shared between calls", "reformat_markdown.py")], [API, "logging module state"],
 state=[("logging.INFO", "process-wide constant that is patched", "markflow/_utils/_utils.py")])

prop("C20", "The command line rewrites exactly what it says it does",
 "A run rewrites a file exactly when its reformatted text differs from its content, writes exactly the text the library returns for that content and line length (a value below 1 meaning infinity), and with an output directory or output files writes there, for changed and unchanged inputs alike, and leaves the inputs alone. With --check nothing is written anywhere (unless --write-renders asks for it) and the exit status is 1 exactly when a normal run would change some file and 0 otherwise; normal runs exit 0; the messages name and count the changed and unchanged files correctly.",
 ["histories", "inputs", "configurations"], "every history of up to three runs over a small file tree, file contents, options and line lengths",
 "No test touches the command line at all.",
 ["__main__.py"],
 [("_reformat_files", "__main__.py"), ("main", "__main__.py")], [CLI])

prop("C21", "Failures and crashes never damage other files or go unnoticed",
 "If a file cannot be reformatted, read or written, the run ends with a non-zero status, the files named before it are completely processed, and that file and all files after it keep their content (apart from the one being written when a write fails). A run killed at any point leaves every file it was not writing at that moment with either its complete old or its complete new content, and repeating the run afterwards finishes the job.",
 ["crash_points", "fault_sequences", "histories"], "every position of a bad file in lists of up to three, every system call at which the process is killed or a write fails, every option set",
 "No test injects a failure.",
 ["__main__.py"],
 [("reformat completes before the output is opened", "__main__.py:_reformat_files")], [CLI])

prop("C22", "Paths are selected and validated before anything is written",
 "Given files are processed whatever their name, in order; a directory stands for exactly the regular '*.md' files below it at any depth that are not hidden, whatever characters its name contains. A missing path, an unwritable target, an unusable output directory, or a wrong number of output files ends the run with a non-zero status before any file is written.",
 ["configurations", "inputs"], "every small directory tree, path argument list, permission assignment and option set",
 "No test touches path handling.",
 ["_argparse.py", "__main__.py"],
 [("AddMarkdownFilesInDirOrPathsAction", "_argparse.py"), ("File / Directory / ExistingPath", "_argparse.py"), ("post-parse validation", "__main__.py:parse_args")], [CLI])

prop("C23", "Library, file and standard-input modes agree on every line-end style",
 "The same content gives the same reformatted text through the library, through a file and through standard input, where standard output carries exactly that text and nothing else. '\\n', '\\r\\n' and '\\r' line ends are equivalent on input, always become '\\n' on output (so a file that differs from its reformatted text only in line ends is rewritten and reported by --check), and no other character ends a line.",
 ["inputs", "configurations"], "every document of the block alphabet, every assignment of line ends to its lines, every mode",
 "All test inputs use '\\n' and the library entry point.",
 ["__main__.py", "reformat_markdown.py"],
 [("_reformat_stdin", "__main__.py"), ("line splitting", "reformat_markdown.py")], [API, CLI])

prop("C24", "Diagnostics point at the right line",
 "When a top-level table is refused, the line number in the message is the 1-based number of the offending row in the input; informational and warning messages about a top-level section carry the 1-based line range that section occupies in the input.",
 ["inputs"], "every document made of preceding blocks (of every kind and length) followed by a faulty or noted construct",
 "No test looks at line numbers.",
 ["reformat_markdown.py", "parser.py", "formatters/table.py", "formatters/atx_heading.py"],
 [("line_index accounting", "reformat_markdown.py:_reformat_markdown_text")], ["exception message", "log records"])

prop("C25", "Messages go to standard error at the chosen verbosity and change nothing",
 "A run writes to standard error exactly those messages the library logs for the texts it reformats that are at or above the chosen level: errors by default, one level lower for every -v and one higher for every -q given, in any order and spelling, ending at debug and critical. A run that fails because of a file names that file and the reason. The options change neither the exit status, nor standard output, nor any file.",
 ["configurations", "inputs"], "every number, order and spelling of verbosity options, for every kind of message, mode of output and line length, and every two files",
 "No test runs the command line or configures logging.",
 ["__main__.py"],
 [("verbosity arithmetic and logging.basicConfig", "__main__.py:parse_args"), ("_reformat_files", "__main__.py"), ("__main__", "__main__.py")], [CLI])

prop("C26", "--write-renders shows both passes when, and only when, they differ",
 "If a text is refused because a second pass would change it and --write-renders was given, the run still fails, and the results of the first and the second pass are put beside the file that would have been written, with '.1' and '.2' added to its name (before a final '.md'), or printed for standard input. Otherwise no such file is written; in no case is any other file changed than without the option.",
 ["configurations", "inputs"], "every kind of text and name in every mode of output at several line lengths, and every two (three) files",
 "No test runs the command line.",
 ["__main__.py"],
 [("_write_renders", "__main__.py"), ("_print_renders", "__main__.py"), ("_reformat_files", "__main__.py")], [CLI])

prop("C27", "Tabs that indent mean the columns they stand for",
 "A tab that indents a line, or what follows the outermost marker of a block quote or the marker and space of a list item, means the blanks up to the next multiple of four columns: reformatting a document with such tabs gives the same as reformatting the one with blanks in their place (including being refused for the same reason), apart from tabs kept in the content of code. This holds at every line length and whatever sections are around the line.",
 ["inputs", "configurations"], "every line over markers x whitespace x contents between every two kinds of other lines; sequences of indented lines; line lengths",
 "No test contains a tab.",
 ["_utils/_utils.py", "detectors/_lines.py", "formatters/lists.py", "formatters/block_quote.py", "formatters/indented_code_block.py"],
 [("get_indent, expand_indent, remove_indent", "_utils/_utils.py"), ("remove_quote_markers", "detectors/_lines.py"), ("_split_list, _dedent_entries", "formatters/lists.py")], API)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
