# The properties and how each is decided. gen.py writes properties.jsonl and MANIFEST.json from it.
SEQ = "explicit enumeration of all operation sequences up to a depth, each replayed on the real code against a reference model"
ENUM = "exhaustive enumeration of all documents over a finite alphabet up to a bound, each run on the real code and judged by an independent oracle"
PROPS = [
 dict(id="C01", title="Every document is converted: no panic, no hang, no error",
  statement="Whatever the text of a document (any characters, any order of lines, blocks that are not terminated, macros that are malformed, invalid UTF-8), converting it without including other files ends, without panic, and without error, in HTML5 as in XHTML5, with or without the header and footer. No error is logged either: a part of a document which cannot be parsed is not dropped (unless its `subs` has an unknown substitution), as what is not valid markup is text.",
  over=["inputs"],
  quant="all documents without file inclusion: all short strings of markup characters in each syntactic context, all short sequences of lines, all pairs of constructs, all one-byte mutations of each construct",
  why="Tests contain well-formed snippets; panics and internal errors come from combinations of malformed or nested constructs which nobody writes on purpose.",
  files=["pkg/parser/parser.peg","pkg/parser/document_processing_apply_substitutions.go","pkg/types/types.go","pkg/renderer/sgml/elements.go"],
  mech=[("fragment parsing and substitutions","pkg/parser/document_processing_*.go"),("rendering","pkg/renderer/sgml/*.go")],
  observe=["the result of libasciidoc.Convert","the log, at the level of errors"],
  technique=ENUM, note="Exhaustive within the alphabets and lengths reported in the evidence; longer or different documents are not covered. A conversion that takes more than 60 s counts as a hang."),
 dict(id="C02", title="Special characters are text, and the output is well-formed",
  statement="Whatever the characters < > & and quotes of a text, wherever the text goes in the output (paragraphs, titles, table of contents, cells, list items and terms, verbatim blocks, attributions, captions, footnotes, link labels, alt texts, identifiers, metadata), they are rendered as these characters: the tree of elements is the one obtained with a plain word in the same place, and the XHTML5 output is well-formed XML. Only passthroughs (and the predefined attributes such as {lt} and {amp}) give raw markup. When the attribute `unicode` is `false`, the characters outside ASCII of a text are given as references to the same characters.",
  over=["inputs"],
  quant="all texts made of special characters, in all places of a document where text goes to the output",
  why="Escaping is done at each of some hundred places; the tests have a special character in a few of them.",
  files=["pkg/renderer/sgml/html_escape.go","pkg/renderer/sgml/*.go","pkg/parser/parser.peg"],
  mech=[("escaping","pkg/renderer/sgml/html_escape.go"),("special characters","pkg/types/types.go: SpecialCharacter")],
  technique=ENUM, note="The reference is the output for a plain word in the same place. Role names, raw image URLs in HTML5 and attribute values with special characters are excluded (pinned by existing tests)."),
 dict(id="C03", title="Every word of the text is rendered exactly once, in order",
  statement="For all combinations of blocks and containers (sections, delimited blocks, lists with attached blocks, table cells), each word of the visible text is in the output exactly once, in the order of the source (footnotes come at the end), and no word of comments, disabled conditionals, block attributes or markup is in the text.",
  over=["inputs"],
  quant="all pairs of kinds of blocks, in all kinds of containers, with and without a header, in both back-ends",
  why="Text gets lost or duplicated when two constructs meet (a block after a list, a block attached to an item, a comment in a list); tests cover few of the combinations.",
  files=["pkg/parser/document_processing_*.go","pkg/types/types.go","pkg/renderer/sgml/*.go"],
  mech=[("aggregation of blocks","pkg/parser/document_processing_aggregate_fragments.go"),("arrangement of lists","pkg/parser/document_processing_arrange_lists.go")],
  technique=ENUM, note="Exhaustive over the corpus of snippets (about 100, covering all kinds of blocks and inline elements), containers and pairs reported in the evidence."),
 dict(id="C25", title="HTML5 and XHTML5 outputs are the same document",
  statement="For every document and configuration, the HTML5 and the XHTML5 outputs have the same elements, with the same attributes and the same texts, in the same order; they only differ in their syntax (closing of void elements, namespace). The XHTML5 output is well-formed.",
  over=["inputs","configurations"],
  quant="all pairs of blocks and inline constructs, with and without header and footer",
  why="There are two sets of templates; a test of one back-end does not tell that the other has the same content.",
  files=["pkg/renderer/sgml/html5/*.go","pkg/renderer/sgml/xhtml5/*.go"],
  mech=[("templates","pkg/renderer/sgml/html5/*.go, pkg/renderer/sgml/xhtml5/*.go")],
  technique=ENUM, note="Both outputs are parsed into trees and compared; exhaustive over the corpus of snippets, pairs and headers."),
 dict(id="C26", title="A block is rendered the same way wherever it is",
  statement="The rendering of a block does not depend on its container or on its unrelated neighbours: in a delimited block, attached to a list item, in a section or in an AsciiDoc table cell, and before or after any other block, it gives the same elements as alone (except for numbers and generated identifiers).",
  over=["inputs"],
  quant="all kinds of blocks, in all kinds of containers and next to all other kinds of blocks",
  why="State of the parser and the renderer which leaks from one block to another shows only with particular pairs of neighbours.",
  files=["pkg/parser/document_processing_*.go","pkg/renderer/sgml/*.go"],
  mech=[("scopes of delimited blocks","pkg/parser/parser_ext.go, pkg/parser/parser.peg"),("context of the renderer","pkg/renderer/sgml/context.go")],
  technique=ENUM, note="The reference is the rendering of the block alone. Exhaustive over the corpus, the containers and the pairs of neighbours."),
 dict(id="C33", title="The title, id and roles of a block apply to it, and to it only",
  statement="Whichever way a title, an identifier and roles are written before a block of any kind, they are on the element of this block in the output: the id and the roles (class names) as attributes, the title as its title or caption. They are nowhere else: the next block has none of them.",
  over=["inputs"],
  quant="all kinds of blocks, all notations of title, id and roles and their orders, alone or followed by a block of the same kind, at the root or in containers",
  why="Each kind of block has its own template and its own code to place attributes; tests have a few of the pairs.",
  files=["pkg/renderer/sgml/element_id.go","pkg/renderer/sgml/element_role.go","pkg/types/attributes.go","pkg/renderer/sgml/html5/*.go"],
  mech=[("attributes of blocks","pkg/types/attributes.go")],
  technique=ENUM, note="Exhaustive over the kinds of blocks and notations reported in the evidence."),
 dict(id="C10", title="Conditional directives keep exactly the enabled lines",
  statement="Whatever the nesting of ifdef, ifndef and ifeval regions (block or single-line form) and of the attribute settings and resets between them, the lines that reach the output are exactly those all of whose enclosing conditions are true at the point where each condition is read, in source order, and no directive is left in the output. Attributes given by the caller always win over those of the document, an unmatched endif is ignored, and the operators ==, !=, <, <=, > and >= compare their quoted operands as strings. A region that is excluded has no effect on anything that follows: attributes it sets, files it includes, delimiters, nested conditions and counters in it do not count.",
  over=["inputs","histories"],
  quant="all sequences of text, ifdef/ifndef/ifeval, endif, single-line conditionals, attribute settings and resets",
  why="The tests sample a dozen hand-written documents; nesting depth, unmatched endif, attributes that change between conditions, and side effects of excluded regions are combinations they do not reach.",
  files=["pkg/parser/document_preprocessing.go","pkg/parser/parser.peg","pkg/types/types.go"],
  mech=[("stack of conditions","pkg/parser/document_preprocessing.go: conditions, builder.enabled"),("evaluation of conditions","pkg/types/types.go: IfdefCondition, IfndefCondition, IfevalCondition")],
  technique=SEQ, note="Exhaustive within the bounds reported in the evidence; trusts the reference stack model in mc/props/c10_conditionals.go."),
 dict(id="C15", title="Sections nest by level, with unique ids and right numbers",
  statement="Each section of levels 1 to 5 is in the last section before it which has a lower level, or else at the root, and its content is in it. Its id is the one that is given, or else is made of the prefix and the words of the title, in lower case, joined by the separator; an id already taken by a previous section gets the first free suffix _2, _3, and so on. When numbering is on (by the header, the configuration, or entries between the sections), a section is numbered by its rank among the numbered children of its parent, after the number of its parent. What comes before the first section of a document with a title is its preamble.",
  over=["inputs","configurations"],
  quant="all sequences of sections of all levels, with colliding titles, explicit ids, id prefixes and separators, and switches of the numbering at all places",
  why="Hierarchy, collisions of identifiers and numbering depend on all previous sections; tests have a few sequences, and no colliding ids with prefixes or gaps in levels.",
  files=["pkg/parser/document_processing_aggregate.go","pkg/types/types.go","pkg/types/non_alphanumerics_replacement.go","pkg/renderer/sgml/section.go"],
  mech=[("hierarchy","pkg/parser/document_processing_aggregate.go: aggregator"),("identifiers","pkg/types/types.go: Section.ResolveID"),("numbers","pkg/types/types.go: SectionNumbers")],
  technique=SEQ, note="Exhaustive within the bounds of the evidence, against a reference model (mc/props/sections.go). Documents where a numbered section has a parent without number are excluded."),
 dict(id="C16", title="The table of contents lists exactly the sections, in their hierarchy",
  statement="When a table of contents is asked for (by the document or the configuration), there is exactly one, at its place (first, or at the end of the preamble), unless there is no section to list. It has one entry for each section whose level is at most the depth (2 by default), in order and nested as the sections are, which links to the id of the section and has its number and title. The table of contents returned to the caller has the same entries.",
  over=["inputs","configurations"],
  quant="all sequences of sections of all levels, with all placements and depths, colliding and formatted titles, and switches of the numbering",
  why="The table of contents is built apart from the sections and must agree with them in hierarchy, ids, numbers and titles for all documents.",
  files=["pkg/types/types.go","pkg/renderer/sgml/table_of_contents.go","pkg/parser/document_processing_aggregate.go"],
  mech=[("entries","pkg/types/types.go: TableOfContents.Add"),("rendering","pkg/renderer/sgml/table_of_contents.go")],
  technique=SEQ, note="Same model of the sections as C15."),
 dict(id="C23", title="Cross references lead to the element, with the right label",
  statement="A cross reference, in any notation and anywhere in the text, before or after its target, is a link to the id that the target has in the output, and this id is there once. Its label is the given one, or else the title of the target, formatted, without links, or else the id in brackets. A reference to another document links to its .html file.",
  over=["inputs"],
  quant="all kinds of targets, notations of references, places of references, before or after the target",
  why="References are resolved after the parsing of the whole document, in some of the places where elements are; tests are about paragraphs.",
  files=["pkg/parser/document_processing_aggregate.go","pkg/renderer/sgml/cross_reference.go","pkg/types/types.go"],
  mech=[("resolution","pkg/parser/document_processing_aggregate.go: resolveCrossReferences"),("rendering","pkg/renderer/sgml/cross_reference.go")],
  technique=ENUM, note="Exhaustive over the targets, notations and places reported in the evidence. References in section titles are not supported by the library and excluded."),
 dict(id="C18", title="Lists nest by their markers and keep the blocks attached to their items",
  statement="Each list item goes to the closest enclosing list that has the same kind and marker, which ends the lists nested in it; otherwise it starts a list nested in the item before it. A line of text directly after an item (also after a comment) continues it, a list continuation (+) attaches the next block of any kind to the current item, or to the item n levels above when n blank lines precede the +, and text or a block which is not attached ends all lists after a blank line. Ordered lists have the numbering style of their marker, terms have the descriptions which follow them, and the items of checklists are shown checked or not as they are marked.",
  over=["inputs","histories"],
  quant="all sequences of items with all markers, text, blank lines, continuations, comments and blocks, up to a length; all kinds of blocks attached at all levels",
  why="The tree of lists depends on the whole sequence of lines before; the tests have a few dozen sequences, mostly of one kind of list.",
  files=["pkg/types/types.go","pkg/parser/document_processing_arrange_lists.go","pkg/parser/parser.peg","pkg/renderer/sgml/unordered_list.go","pkg/renderer/sgml/ordered_list.go","pkg/renderer/sgml/labeled_list.go"],
  mech=[("arrangement of lists","pkg/parser/document_processing_arrange_lists.go"),("lists and items","pkg/types/types.go: ListElements, List")],
  technique=SEQ, note="Exhaustive within the bounds of the evidence, against a reference machine (mc/props/c18_lists.go) which reads the document line by line. The styles of unordered lists whose markers skip a level are excluded (an existing test pins them)."),
 dict(id="C17", title="Footnotes are numbered in order, listed once, and linked both ways",
  statement="Wherever footnotes are (titles, list items and terms, cells, delimited blocks, quoted text), the n-th one of the document has the number n, at its place and in the list of notes at the end, where each is once, in order, with its text formatted. The number at its place links to the note and the note links back. A reference by name has the number of the note with this name and links to it, and adds no note; a reference to a name that no note before it has is shown as unresolved, with the name.",
  over=["inputs"],
  quant="all pairs of places of footnotes and sequences of notes, named notes and references, with all kinds of contents, in all containers",
  why="Footnotes are collected by the code of each kind of element; the tests have a few elements and hardly ever two kinds in a document.",
  files=["pkg/types/types.go","pkg/parser/document_processing_collect_footnotes.go","pkg/renderer/sgml/footnote_reference.go"],
  mech=[("numbering","pkg/types/types.go: Footnotes, SubstituteFootnotes"),("rendering","pkg/renderer/sgml/footnote_reference.go")],
  technique=ENUM, note="Exhaustive over the places, macros and contents of the evidence. A name given to two notes, and documents with a table of contents, are excluded."),
 dict(id="C19", title="Delimited blocks end at their own delimiter, and verbatim text is kept",
  statement="A delimited block (listing, literal, fenced, passthrough, comment, example, sidebar, quote, open) extends from its delimiter to the first line with the same delimiter, of the same length, or else to the end of what contains it. All other lines, delimiters of other kinds or lengths included, are its content: blocks in compound blocks, and text in verbatim blocks, which is rendered as it is written, character by character, except for blank lines at both ends. A delimiter ends the paragraph before it, with or without a blank line, and what follows the block is not affected.",
  over=["inputs"],
  quant="all sequences of delimiters of all kinds and lengths, text and blank lines up to a length; all contents of verbatim blocks made of lines that have a meaning elsewhere; all adjacent pairs of blocks",
  why="A delimiter changes the meaning of all lines up to the next one; tests have well-balanced blocks, with plain text.",
  files=["pkg/parser/parser.peg","pkg/parser/parser_ext.go","pkg/parser/document_preprocessing.go","pkg/types/types.go","pkg/renderer/sgml/delimited_block*.go"],
  mech=[("delimiters","pkg/parser/parser.peg: DelimitedBlock rules"),("content","pkg/parser/document_processing_apply_substitutions.go: delimited blocks")],
  technique=SEQ, note="Exhaustive within the bounds of the evidence, against a reference reader (mc/props/c19_delimited.go)."),
 dict(id="C22", title="Tables: every cell once and in place, in columns as specified",
  statement="A table renders each of its cells exactly once, in the order of the source, in rows of as many cells as there are columns: as many as the column specification gives (multipliers included), or else as the first line has. The first row is the header when the option says so, or when its line is followed by a blank line; the last one is the footer with the option. Every column has its alignments and its style, and a width according to its weight (the sum being 100%, unless some or all widths are automatic). The content of cells is formatted as it would be outside of tables: text, or blocks in AsciiDoc cells.",
  over=["inputs"],
  quant="all tables up to a number of cells, in all layouts on lines, with all combinations of columns, header and footer; all column specifications up to a length; all pairs of contents",
  why="Rows are regrouped from lines by three interacting attributes; the tests have a few regular tables.",
  files=["pkg/types/types.go","pkg/parser/parser.peg","pkg/parser/document_processing_apply_substitutions.go","pkg/renderer/sgml/table.go"],
  mech=[("rows","pkg/types/types.go: organizeTableCells, SetColumnDefinitions"),("columns","pkg/types/types.go: Table.Columns"),("rendering","pkg/renderer/sgml/table.go")],
  technique=ENUM, note="Exhaustive within the bounds of the evidence, against a reference layout (mc/props/c22_tables.go)."),
 dict(id="C24", title="Captions of tables, figures and examples are numbered in document order",
  statement="Each table, block image and example block with a title has the caption 'Label N. ' before it, where N numbers the elements of that kind that have such a caption from 1, without gaps, in the order in which they start in the document, wherever they are (sections, lists, blocks, cells). Elements without title have no caption and no number; those with a caption of their own show it and take no number. The label is that of the configuration, or else the last one declared before in the document; after its attribute is unset, elements have neither label nor number.",
  over=["inputs","history"],
  quant="all sequences of captioned elements, declarations and sections up to a length; all elements in all containers and pairs of nested containers; all combinations of labels from the configuration and the document",
  why="Numbers depend on everything before in the document and on the order of rendering; tests have one or two elements at the top level.",
  files=["pkg/renderer/sgml/table.go","pkg/renderer/sgml/image.go","pkg/renderer/sgml/delimited_block_example.go","pkg/renderer/sgml/context.go","pkg/renderer/sgml/elements.go"],
  mech=[("counters","pkg/renderer/sgml/context.go: getAndIncrementCounter"),("captions","pkg/renderer/sgml/table.go, image.go, delimited_block_example.go")],
  technique=SEQ, note="Exhaustive within the bounds of the evidence, against a counting model (mc/props/c24_captions.go)."),
 dict(id="C13", title="A reference to an attribute gives its value at that point of the document",
  statement="A reference `{name}` gives the same output as the value written in its place. The value is the one of the configuration if it has this attribute (no declaration or removal in the document changes it), or else the one of the last declaration before the reference, in the header or the body, evaluated with the attributes at the point of that declaration. A reference to an attribute that has no value at this point (never declared, or removed) is shown as it is written. This holds wherever references are replaced: text, titles, attribute lists, locations and labels of macros, list items, cells; in verbatim and passthrough content, when escaped, or when `subs` leaves attributes out, references are kept. Predefined attributes such as {nbsp} or {plus} give their character everywhere.",
  over=["inputs","history"],
  quant="all sequences of declarations, removals and references up to a length, with all combinations of values from the configuration; all references and values in all places of the syntax",
  why="The value depends on the history of the document, and each place has its own code; tests have one declaration and a reference in a paragraph.",
  files=["pkg/parser/document_processing_apply_substitutions.go","pkg/parser/context.go","pkg/types/attributes.go","pkg/parser/parser.peg"],
  mech=[("values","pkg/parser/context.go: contextAttributes"),("substitution","pkg/parser/document_processing_apply_substitutions.go: replaceAttributeRefs...")],
  technique=SEQ, note="Exhaustive within the bounds of the evidence; the oracle is a model of the attributes and the conversion of the document with its values in place (mc/props/c13_attributes.go)."),
 dict(id="C14", title="Counters increase by one at each occurrence, in document order",
  statement="Each reference {counter:name} or {counter2:name} increments the counter of that name (from 1, or from the start value that the reference gives, a number or a letter), and nothing else does, each exactly once, in the order of the references in the document, wherever these are (text, titles, list items, cells, locations, labels). {counter:name} is replaced with the new value, and {counter2:name} with nothing. Counters of different names are independent.",
  over=["inputs","history"],
  quant="all sequences of references to several counters up to a length; all places and all pairs of places of references",
  why="A counter is a side effect of substitution, which processes some elements several times and in another order; the tests have a few paragraphs.",
  files=["pkg/parser/document_processing_apply_substitutions.go","pkg/parser/context.go","pkg/parser/parser.peg"],
  mech=[("counters","pkg/parser/document_processing_apply_substitutions.go: valueForCounter")],
  technique=SEQ, note="Exhaustive within the bounds of the evidence; the oracle is a table of counters (mc/props/c14_counters.go)."),
 dict(id="C11", title="Including a file is the same as having its content in its place",
  statement="A document with an include directive on a line has the same output as the document with the lines of the file in place of this line, including the effects of the attributes, conditions, delimiters and includes of the file, at any depth. The path, after the replacement of attributes, is relative to the directory of the file which has the directive. With a relative `leveloffset`, the titles of sections of the file, and of the files it includes, outside of delimited blocks, are shifted by it; an absolute one replaces the offsets of the including files. The content of a file whose extension is not one of AsciiDoc is included without processing its directives. An escaped directive is text; a directive that cannot be resolved (file, lines, tags or recursion), unless excluded by a condition, makes the conversion fail without output, with an error that has the directive.",
  over=["inputs","environment"],
  quant="all sequences of pieces of documents up to a length, cut at all places into nested files; all blocks in all containers; all chains of files in several directories; all pairs of offsets",
  why="What an include means depends on everything before it and on the files around; tests have a dozen files with plain text and sections.",
  files=["pkg/parser/document_preprocessing.go","pkg/parser/context.go","pkg/parser/parser.peg","pkg/types/types.go"],
  mech=[("include","pkg/parser/document_preprocessing.go: includeFile, contentOf"),("level offsets","pkg/parser/document_preprocessing.go: levelOffsets")],
  technique=SEQ, note="Exhaustive within the bounds of the evidence; the oracle is the conversion of the document with the content in place (mc/props/c11_includes.go)."),
 dict(id="C12", title="Includes select the lines that their tags or ranges ask for",
  statement="With `lines`, an include gives the lines whose number is in one of the ranges (in any order; -1 is the end of the file), each once, in the order of the file. With `tag` or `tags`, it gives each line for which the last name of the list that applies to it is not excluded with `!`: a name applies to the lines between a `tag::name[]` line and the next `end::name[]` line, or the end of the file, in all regions of that name; `*` to the lines in any region, `**` to all lines; when all names are excluded, the other lines are included. Lines with tag directives are never included. A name that is asked for, but not in the file, is an error. Separators can be commas or semicolons, and values quoted or not.",
  over=["inputs"],
  quant="all files with starts and ends of regions up to a number, with all lists of names and wildcards up to a length; all lists of ranges; all notations",
  why="The selection is a state machine over the lines of the file; the tests have a file with two nested regions and a few ranges.",
  files=["pkg/parser/document_preprocessing.go","pkg/types/types.go","pkg/parser/parser.peg"],
  mech=[("tags","pkg/types/types.go: TagRanges.Match; pkg/parser/document_preprocessing.go: readWithinTags"),("lines","pkg/types/types.go: LineRanges.Match")],
  technique=ENUM, note="Exhaustive within the bounds of the evidence, against a reference selection (mc/props/c12_selection.go)."),
 dict(id="C09", title="Line ends, reads, trailing spaces and lengths of lines do not change the result",
  statement="The output of a conversion depends on the lines of the document only. It is the same however the reader delivers the bytes (pieces of any size, empty reads, end of file with or after the last bytes), with LF or CRLF line ends, with or without a line end at the end or a byte order mark at the start. Spaces and tabs at the end of lines (verbatim text excepted), and more blank lines where there is one between blocks, at the start or at the end, change nothing either. Lines may be of any length.",
  over=["inputs","environment"],
  quant="all ways to cut all documents of a corpus into reads at one or two positions; all lines and pairs of lines with trailing spaces; all places with lines of lengths around the sizes of buffers",
  why="Tests give the source as one string with short lines and without trailing spaces.",
  files=["libasciidoc.go","pkg/parser/document_preprocessing.go","pkg/parser/parser.peg"],
  mech=[("reading","pkg/parser/document_preprocessing.go: preprocess")],
  technique=ENUM, note="Exhaustive within the bounds of the evidence; the oracle is the conversion of the plain form of the document (mc/props/c09_framing.go)."),
 dict(id="C08", title="Errors of readers, writers and files are reported, and output is never wrong",
  statement="When the reader of the source fails at any point, or a file to convert or include cannot be read, the conversion returns this error and writes nothing. When the writer of the output fails at any write, the conversion returns this error, writes no more, and what has been written is the beginning of the complete output. In all cases, including success, no goroutine and no open file is left behind.",
  over=["fault","environment"],
  quant="all positions of a failure in the source and in the writes of the output, for all blocks after all headers",
  why="Tests use readers, writers and files that work, except for a missing file.",
  files=["libasciidoc.go","pkg/parser/document_preprocessing.go","pkg/renderer/sgml/sgml.go"],
  mech=[("files","pkg/parser/document_preprocessing.go: contentOf, open"),("output","pkg/renderer/sgml/sgml.go: Render")],
  technique=ENUM, note="Exhaustive over the fault points of the documents in the evidence, on the real code (mc/props/c08_faults.go)."),
 dict(id="C04", title="The outcome depends only on the source and the configuration",
  statement="The output, the metadata, the error and the messages logged (apart from their order) are a function of the source, the files it includes and the configuration (with its date of last update). They do not depend on the order in which maps are iterated, on random numbers or the clock, on the seeds of a process, or on its time zone, locale, environment and working directory.",
  over=["environment","inputs"],
  quant="all starting points of each iteration over a map, all the values of the environment considered, for all kinds of blocks, all pairs of attributes, and documents with many entries in each table of the library",
  why="An iteration over a map goes in the same order most of the time, so that a test passes by luck; the environment of the tests never changes.",
  files=["pkg/types/attributes.go","pkg/types/types.go","pkg/renderer/sgml/*.go","pkg/parser/*.go"],
  mech=[("attributes of blocks","pkg/types/attributes.go"),("tag ranges, section numbers, references","pkg/types/types.go"),("rendering","pkg/renderer/sgml/*.go")],
  technique="stateless exploration of the real code with a controlled runtime: each map iteration (and random number) is a decision point", note="The Go runtime is built with a patch (sched/) that makes each start of a map iteration a decision; all single deviations from the default are run (pairs in the thorough tier, for the documents with many entries). Iteration orders are the ones Go's maps may have."),
 dict(id="C05", title="Every schedule of the pipeline ends, with the same outcome",
  statement="Whatever the interleaving of the goroutines of a conversion, it ends, with the same output, metadata, error and messages (apart from their order), and leaves no goroutine behind; also when the source cannot be read or the output cannot be written. The same goes for the stages of the parser used directly: the fragments come in the order of the source, and when the consumer closes `done` after any number of fragments, all goroutines end.",
  over=["schedules","fault","inputs"],
  quant="all schedules with a bounded number of deviations from the default one, of documents with fewer and more fragments than the channels may hold, with errors, and with cancellation after each number of fragments",
  why="The tests run one schedule, and never stop a pipeline halfway.",
  files=["pkg/parser/document_processing.go","pkg/parser/document_processing_*.go"],
  mech=[("pipeline","pkg/parser/document_processing.go: ParseDocument"),("stages","pkg/parser/document_processing_*.go")],
  technique="stateless exploration of the real code under a controlled scheduler: all schedules up to a bounded number of deviations", note="The Go runtime is built with a patch (sched/) that schedules the goroutines of the conversion on a single thread; the decision points are the operations on channels and locks. Up to 2 deviations for the conversions (3 for the shortest), 1 for the long ones, the faults and the cancellations; one more in the thorough tier. Data races are the subject of C06."),
 dict(id="C06", title="Conversions at the same time do not affect each other",
  statement="Conversions which run at the same time, with the same configuration or with different ones, for the same or different documents, each give the output, metadata, error and messages they give alone; the configuration is not changed; and there is no data race, neither between conversions nor between the goroutines of one.",
  over=["schedules"],
  quant="all pairs of documents which use all the kinds of states, with the same configuration or different ones, under all schedules with a bounded number of deviations",
  why="The tests convert one document at a time.",
  files=["libasciidoc.go","pkg/parser/*.go","pkg/renderer/*.go","pkg/configuration/configuration.go"],
  mech=[("conversion","libasciidoc.go: Convert"),("pipeline","pkg/parser/document_processing.go"),("templates","pkg/renderer/sgml/*.go")],
  technique="stateless exploration of the real code under a controlled scheduler (all schedules with at most one deviation), with the race detector on each of a part of the schedules", note="As for C05, with the goroutines of both conversions; schedules are also run in a binary built with the race detector (1 deviation for the documents with themselves, none for all kinds of blocks), which finds the unsynchronized accesses whose order the schedule does not show."),
 dict(id="C07", title="A conversion depends neither on the previous ones nor on reused options",
  statement="A conversion has the same outcome (output, metadata, error, messages) whatever was converted before by the process, with success or not, with whatever configuration. It does not change its configuration, which may be used again. The settings of a configuration may come in any order, do not change the values they are given, and configurations made from the same values are independent.",
  over=["histories"],
  quant="all sequences of two conversions (three for a part) among 52, which set and use all the kinds of states of a document, with the same configuration or not; all orders of the settings",
  why="Each test starts from a new configuration, and a state that leaks shows only in a later conversion that depends on it.",
  files=["libasciidoc.go","pkg/configuration/configuration.go","pkg/parser/context.go","pkg/renderer/*.go"],
  mech=[("settings","pkg/configuration/configuration.go"),("contexts","pkg/parser/context.go, pkg/renderer/sgml/context.go")],
  technique=SEQ, note="Exhaustive over the sequences of operations in the evidence, on the real code; the reference is the outcome of the same operation alone in a new process."),
 dict(id="C27", title="The command does what the library does",
  statement="The libasciidoc command writes, for each of its files (or the standard input), exactly what the library gives for the same content and the same settings (attributes, backend, stylesheets, header and footer), in a file next to the source with the extension .html, or in the file or on the standard output given by `-o`. `-a NAME`, `-a NAME=VALUE` and `-a NAME!` set and unset attributes, in order, whatever the VALUE. The status is 0 if and only if all the conversions succeed, the messages are those at or above the level of `--log`, and the sources are not changed.",
  over=["command lines","inputs"],
  quant="all combinations of up to three (four in the thorough tier) of the options of the command with their values, in all orders that matter, for files and the standard input",
  why="The tests of the command check a few options, one at a time.",
  files=["cmd/libasciidoc/*.go"],
  mech=[("command","cmd/libasciidoc/root_cmd.go"),("log","cmd/libasciidoc/log_init.go, log_formatter.go")],
  technique=SEQ, note="The command is built from the working tree and run for each command line of the enumeration, in a directory of its own; the oracle is the library called with the settings that the command line means."),
 dict(id="C32", title="Listings show their source",
  statement="A listing (delimited, fenced or a paragraph; with or without language) shows its lines exactly, whatever they contain and wherever it is; only the `<N>` at the ends of its lines are shown as callouts. With a source highlighter, in any language and style, with or without substitutions of markup, it shows the same as without; the language and the highlighter are told by the classes and data of its elements.",
  over=["inputs","configurations"],
  quant="all sequences of two lines (three in the thorough tier) among 30, in 12 kinds of listings, in 12 places, with and without highlighters; all languages and styles of the highlighter",
  why="The tests highlight a few snippets of Go and Ruby; whether a text survives depends on the line, its neighbours, the kind of listing and the lexer of the language.",
  files=["pkg/renderer/sgml/delimited_block_source.go","pkg/renderer/sgml/*.go","pkg/parser/document_processing_apply_substitutions.go"],
  mech=[("highlighting","pkg/renderer/sgml/delimited_block_source.go"),("callouts","pkg/parser/parser.peg: Callout")],
  technique=SEQ, note="Exhaustive over the stated listings, on the real code; the oracle reads the text shown (the output without tags and with its entities decoded), and compares with the lines of the source."),
 dict(id="C20", title="Blocks get the substitutions they ask for",
  statement="The content of a block goes through exactly the substitutions of its `subs` attribute: those named (in any order, with or without spaces around), those of the groups `none`, `normal` and `verbatim`, or, with `+name`, `name+` and `-name`, those of its kind plus or minus the ones named, applied left to right. Markup whose substitution is not enabled is shown as it is written, and the special characters are escaped if and only if `specialchars` is enabled. The `subs` of a block of blocks do not apply to the blocks inside.",
  over=["inputs"],
  quant="all sets and all sequences of two substitutions or groups (three in the thorough tier), plain, incremental and mixed, in 26 kinds of blocks, with 16 pieces of markup and their pairs",
  why="The tests try some lists on some blocks with one piece of markup; each combination takes its own way through the parser (one grammar rule per set, placeholders, order of the attributes).",
  files=["pkg/parser/document_substitutions.go","pkg/parser/document_processing_apply_substitutions.go","pkg/parser/parser.peg"],
  mech=[("list of substitutions","pkg/parser/document_substitutions.go"),("application","pkg/parser/document_processing_apply_substitutions.go: parseWithSubstitutions")],
  technique=ENUM, note="Exhaustive over the stated lists and blocks, on the real code; the model of `subs` and of the pieces of markup is part of the check, and each case compares it with the code."),
 dict(id="C29", title="Links and images have the targets and texts given",
  statement="A URL (http, https, ftp, irc), a `link:` or `mailto:` macro or an email address becomes one link with exactly that target, with the text given (with its markup) or, without one, the URL; bare URLs end before the punctuation which closes the sentence. Window, role and id of the link are those given, and a link to a blank window has `noopener`. An image has the target given (below `imagesdir` unless it is absolute), the alternative text given or else the name of its file, and the sizes, link, title and role given; with `data-uri`, its content is in the page unless it is remote. The text around is not changed.",
  over=["inputs","configurations"],
  quant="all combinations of schemes, locations and contexts, of targets, texts and attributes, of the parts of images and addresses, and of links and places",
  why="The tests have some dozens of links; where a URL or address begins and ends depends on each character in and around it.",
  files=["pkg/parser/parser.peg","pkg/renderer/sgml/*link.go","pkg/renderer/sgml/image.go","pkg/types/types.go"],
  mech=[("grammar of links","pkg/parser/parser.peg: Link, Location, EmailAddress"),("locations and alternative texts","pkg/types/types.go: NewInlineLink, Location"),("rendering","pkg/renderer/sgml/*link.go, image.go")],
  technique=ENUM, note="Exhaustive over the stated combinations, on the real code; the expected elements are computed from the parts of each case."),
 dict(id="C28", title="The header of a document is in its page, its metadata and its attributes",
  statement="The title, authors (names, addresses) and revision (number, date, remark) at the beginning of a document, in all their forms and with comments and attribute entries around them, are those shown in the header and head of the page, those of the metadata returned, and those of the attributes ({author}, {lastname}, {email_2}, {revnumber}...). Entries after the author and revision lines, and the configuration before all, take precedence over them; entries in the body do not apply to the header. The content of a page is the output without header and footer; `noheader` and `nofooter` omit one part each, and the stylesheets, description, document type, id and roles are those given.",
  over=["inputs","configurations"],
  quant="all pairs of 21 authors (triples in the thorough tier), up to 5 authors, all authors with all revisions, pairs of declarations of 9 attributes at 4 places, titles with what is before them, and all settings of pages",
  why="The tests check some typical headers; what is a name, an address, a number or a date depends on each character, and the page, the metadata and the attributes are computed by different parts of the code.",
  files=["pkg/types/types.go","pkg/parser/parser.peg","pkg/renderer/sgml/sgml.go","pkg/renderer/sgml/document_details.go","pkg/renderer/sgml/context.go"],
  mech=[("header","pkg/parser/parser.peg: DocumentHeader"),("authors and revision","pkg/types/types.go: DocumentAuthors.Expand, DocumentRevision.Expand"),("page","pkg/renderer/sgml/sgml.go: Render")],
  technique=ENUM, note="Exhaustive over the stated headers and settings, on the real code; the model of the header is part of the check."),
 dict(id="C30", title="A user macro gives the output of its template, executed with what is written",
  statement="Where a registered macro is used, as `name:value[attributes]` in a text with macros or as `name::value[attributes]` on a line of its own, the output has exactly what its template writes, once and in place, and the template is given the kind, the whole name, the value and the attributes as written, with the references to attributes replaced. Names which are not registered, and uses in verbatim or literal text, stay as they are, and the rest of the document does not change. When a template fails, the conversion reports its error.",
  over=["inputs","configurations"],
  quant="all combinations of names, values, attributes and contexts, sets of registered names with pairs of uses, places, and positions of failures",
  why="The tests have one macro with some values; which characters belong to the name and value, and what is around, vary with each use, and failures may come at any execution.",
  files=["pkg/parser/parser.peg","pkg/parser/parser_ext.go","pkg/renderer/sgml/user_macro.go","pkg/configuration/configuration.go"],
  mech=[("grammar of user macros","pkg/parser/parser.peg: InlineUserMacro, UserMacroBlock"),("names","pkg/parser/parser_ext.go: hasUserMacro, isInlineMacro"),("execution","pkg/renderer/sgml/user_macro.go")],
  technique=ENUM, note="Exhaustive over the stated combinations, on the real code, with a recording (and failing) template."),
 dict(id="C31", title="A valid manpage has its name in its header, and any other one is the article",
  statement="When the type of a document (in its header, before it, or in the configuration which takes precedence) is `manpage`, and it has a title, a section `Name` (in any case) with a single paragraph and then a section `Synopsis`, its title is followed by `Manual Page`, and the Name section, with its id, is in the header of the page, or before the content without header and footer. The rest (other sections, table of contents, numbers, footnotes) is the same as for the article. When anything is missing, and for other types, the output is exactly the article's; comments and attribute entries in between change nothing.",
  over=["inputs","configurations"],
  quant="all combinations of 2 (thorough: 4) changes of a manpage among 47, and all pairs of further contents with all settings",
  why="The tests have one valid manpage and some invalid ones; validation and rendering are separate and must agree on each document, otherwise the conversion panics or content is lost.",
  files=["pkg/validator/validator.go","pkg/renderer/sgml/sgml.go","libasciidoc.go"],
  mech=[("validation","pkg/validator/validator.go: validateManpage"),("rendering","pkg/renderer/sgml/sgml.go: splitAndRenderForManpage, renderManpageHeader"),("type of the document","libasciidoc.go: doctypeOf")],
  technique=ENUM, note="Exhaustive over the stated combinations, on the real code; the manpage is compared with the rendering as an article."),
 dict(id="C21", title="Text within marks is formatted, marks elsewhere are text",
  statement="Bold, italic, monospace and highlighted text in single marks is formatted when its marks are at the boundaries of words (no letter or digit before the first one and after the last one) and there is no space inside next to them, and in doubled marks everywhere; so are subscript and superscript words. Formats nest, and get the roles and ids before them. Escaped text (and only it) is shown without its backslashes and with its marks, also when there are references to attributes in the same text. Other marks (within words, next to spaces, without a counterpart in the same block) are text, and do not change what is around them.",
  over=["inputs"],
  quant="all forms with all contexts, nestings to three levels, sequences of 2 (thorough: 3) texts, attributes, escapes, unmatched marks and places",
  why="Whether a mark is one depends on the characters around it and on all other marks of the text, and text is parsed twice when it refers to attributes; tests have some typical sentences.",
  files=["pkg/parser/parser.peg","pkg/parser/parser_ext.go","pkg/parser/document_processing_apply_substitutions.go","pkg/renderer/sgml/quoted_text.go"],
  mech=[("grammar of quoted text","pkg/parser/parser.peg: QuotedText"),("what is before a mark","pkg/parser/parser_ext.go: trackElement, isSingleQuotedTextAllowed"),("second parsing","pkg/parser/document_processing_apply_substitutions.go: replaceAttributeRefsInElementsAndReparse"),("rendering","pkg/renderer/sgml/quoted_text.go")],
  technique=ENUM, note="Exhaustive over the stated combinations, on the real code; the expected elements are computed from the parts of each case."),
 dict(id="C34", title="Admonitions and icons are shown with their kind, label and content",
  statement="A paragraph which begins with `NOTE:`, `TIP:`, `IMPORTANT:`, `WARNING:` or `CAUTION:` and spaces, and a paragraph or example block with one of these styles, is rendered as an admonition of that kind, with its id, roles and title and the whole content, wherever it is; other text is not. Its label is its caption, otherwise the attribute `<kind>-caption`, otherwise the name of the kind; it is shown as text, as a font icon or as an image according to the attributes `icons`, `iconsdir`, `imagesdir` and `icontype` at that point of the document. Inline icons follow the same attributes and have the size, rotation, flip, title, alternate text, link, id and roles that they ask for.",
  over=["inputs","configurations"],
  quant="all forms, contents and attributes of admonitions in all places, all short sequences of attribute entries and icons, all subsets of the attributes of inline icons",
  why="The tests have one admonition of each kind with default settings; which label and icon appears depends on the settings in force at that point and the form of the block, in combination.",
  files=["pkg/renderer/sgml/icon.go","pkg/renderer/sgml/delimited_block_admonition.go","pkg/renderer/sgml/paragraph.go","pkg/parser/parser.peg"],
  mech=[("labels","pkg/parser/parser.peg: ParagraphStyle"),("icons","pkg/renderer/sgml/icon.go: renderIcon, renderInlineIcon, renderIconPath"),("blocks","pkg/renderer/sgml/delimited_block_admonition.go (renderAdmonitionBlock, renderAdmonitionParagraph)")],
  technique=ENUM, note="Exhaustive over the stated combinations, on the real code; the whole output is compared with the expected one, computed from the structure of the case."),
 dict(id="C35", title="Quotes and verses are shown with their content and attribution",
  statement="A quote or verse (a paragraph or `____` block with the style `quote` or `verse`, a block without style, or lines which begin with `>`) is rendered with its id, roles, title, whole content and, below, the author and the source it is attributed to, with references replaced and special characters escaped; nothing else of its attributes is shown. The content of quote blocks is made of blocks, the one of verses of formatted text whose lines, blank lines and indentation are kept, whatever they look like.",
  over=["inputs"],
  quant="all forms of quotes and verses with all forms of attributions, contents and attributes, in all places",
  why="The tests have a quote with each form of attribution; forms, contents and attributions are handled by separate rules and templates for paragraphs, blocks and verses, which must agree.",
  files=["pkg/renderer/sgml/delimited_block_quote.go","pkg/renderer/sgml/delimited_block_verse.go","pkg/renderer/sgml/attribution.go","pkg/renderer/sgml/paragraph.go","pkg/parser/parser.peg"],
  mech=[("attributes","pkg/parser/parser.peg: LongHandAttributes"),("rendering","pkg/renderer/sgml/delimited_block_quote.go: renderQuoteBlock, renderQuoteParagraph; delimited_block_verse.go: renderVerseBlock, renderVerseParagraph"),("markdown","pkg/parser/document_processing_apply_substitutions.go: extractMarkdownQuoteAttribution")],
  technique=ENUM, note="Exhaustive over the stated combinations, on the real code; the whole output is compared with the expected one, computed from the structure of the case."),
 dict(id="C36", title="Lists are shown in the style and with the options they ask for",
  statement="An ordered list has the numbering style which is asked for, otherwise the one of its marker or level, the corresponding type of numbers, and its start and reversed order; an unordered list has its style, and is a checklist, with a box for each marked item (checked, unchecked or interactive), when its first item has a mark; a labeled list is rendered as definitions, as a table when horizontal, or as questions and answers, with all its terms in order and the description of each with its terms, even without any. Each has its id, roles and title, and each item its whole text.",
  over=["inputs","configurations"],
  quant="all markers, styles, options and marks of lists of up to 3 items, with all pairs (thorough: quadruples) of changes among attributes, texts, separations and places",
  why="The tests have one list for each style; styles, options, marks and terms without description combine, and each combination must remain a well-formed list.",
  files=["pkg/renderer/sgml/list.go","pkg/types/types.go","pkg/renderer/sgml/html5/labeled_list.go","pkg/renderer/sgml/html5/ordered_list.go"],
  mech=[("styles","pkg/renderer/sgml/list.go: getNumberingStyle, numberingType, renderLabeledListItem"),("checklists","pkg/types/types.go: UnorderedListElement; pkg/renderer/sgml/list.go"),("templates","pkg/renderer/sgml/html5, xhtml5: *_list.go")],
  technique=ENUM, note="Exhaustive over the stated combinations, on the real code; the whole output is compared with the expected one, computed from the structure of the case."),
 dict(id="C37", title="Typographic shorthands and line breaks are replaced in text, and only there",
  statement="In text, wherever text can be (paragraphs, titles, items, cells, labels, notes...), `(C)`, `(R)`, `(TM)`, `...`, `->`, `<-`, `=>`, `<=`, apostrophes between letters, and `--` between words or spaces are replaced by the character they stand for, whatever is around them; after a backslash they are shown as they are, without the backslash and with special characters escaped. In literal content (listings, literals, passthroughs, paragraphs without that substitution) they and the backslashes are kept. A line of a paragraph which ends with ` +` ends with exactly one line break, without the mark, as do all lines but the last with the option or attribute `hardbreaks`, wherever the paragraph is.",
  over=["inputs"],
  quant="all texts with 2 (thorough: 3) shorthands and separations, all shorthands in all places, all paragraphs of 2 or 3 (thorough: 4) lines with all endings and ways to ask for breaks",
  why="The tests have each shorthand alone in a paragraph; whether one is replaced depends on the characters around it, on the substitutions in force, and on what was parsed before.",
  files=["pkg/parser/parser.peg","pkg/parser/parser_ext.go","pkg/renderer/sgml/symbol.go","pkg/renderer/sgml/paragraph.go"],
  mech=[("grammar","pkg/parser/parser.peg: Symbol, TypographicQuote, LineBreak"),("replacement","pkg/renderer/sgml/symbol.go: symbols"),("breaks","pkg/renderer/sgml/paragraph.go: renderParagraphElements")],
  technique=ENUM, note="Exhaustive over the stated combinations, on the real code; the oracle replaces the shorthands from left to right on the characters of the text."),
 dict(id="C38", title="Passthroughs keep their content, and other plus signs are text",
  statement="In a line of text, the content of `+...+` (delimited as in words: no letter or digit before the first or after the last sign, no space within the signs) is shown as it is, with special characters escaped and without any formatting, macro, replacement or attribute reference; the content of `+++...+++` and of `pass:[...]` goes to the output unchanged, unescaped; so does that of `pass:q[...]`, with its formatted text formatted. This holds wherever text can be (titles of blocks, items, cells, quoted text, notes, labels...) and does not affect what is around it. Plus signs which do not delimit a passthrough (`1+1`, `a + b`, `C+`) are text, and so is what is between them.",
  over=["inputs"],
  quant="all forms of passthroughs x 43 contents x 16 texts before x 16 after; all pairs (thorough: triples) of passthroughs; all contents in all places of text; all texts of 4 (thorough: 5) characters and plus signs",
  why="The tests have a few contents for each form; what is a passthrough depends on what precedes and follows it, and its content competes with every other inline element of the grammar and with the substitutions which come later.",
  files=["pkg/parser/parser.peg","pkg/parser/document_processing_apply_substitutions.go","pkg/renderer/sgml/passthrough.go"],
  mech=[("grammar","pkg/parser/parser.peg: InlinePassthrough"),("rendering","pkg/renderer/sgml/passthrough.go")],
  technique=ENUM, note="Exhaustive over the stated combinations, on the real code; the oracle is a table of what each content shows in each form."),
 dict(id="C39", title="Buttons, menus, index terms and thematic breaks",
  statement="When the `experimental` attribute is set (in the header, in the body from there on, or by the configuration, which wins), `btn:[label]` is shown as a button with this label and `menu:name[item > item]` as the sequence of these names and items, anywhere in text; when it is not set, they are text as it was written. An index term `((term))` shows the term, formatted, and a concealed one `(((a, b, c)))` shows nothing; none of them affects what is around. A line `'''`, `---`, `- - -`, `***`, `* * *`, `___` or `_ _ _` alone is a thematic break, `<hr>`, apart from the blocks before and after it, wherever blocks can be.",
  over=["inputs","histories"],
  quant="all sequences of up to 5 (thorough: 7) declarations, unsettings and blocks with macros; 28 labels, menus with up to 2 (thorough: 3) items, 24 terms between 14 texts before and 15 after, in 18 places; all notations of breaks in 18 contexts",
  why="The tests have a few labels, with the attribute in the header; what holds depends on the history of the attribute and on all what may surround the macros.",
  files=["pkg/parser/parser.peg","pkg/parser/document_processing_apply_substitutions.go","pkg/renderer/sgml/index_term.go","pkg/renderer/sgml/inline_button.go","pkg/renderer/sgml/inline_menu.go"],
  mech=[("grammar","pkg/parser/parser.peg: InlineButton, InlineMenu, IndexTerm, ConcealedIndexTerm, ThematicBreak"),("rendering","pkg/renderer/sgml")],
  technique=ENUM, note="Exhaustive over the stated combinations, on the real code; the oracle is a state machine of the attribute and a table of what each label or term shows."),
]
NOT_APPLICABLE = []
NOTES = "check.sh rebuilds the driver in mc/ against /repo's working tree on every run; replay.sh replays a recorded violation."
