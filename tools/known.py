# (property, exact case as printed by the check, what fails)
KNOWN = [
 ("C02", 'slot=pinned backend=xhtml5 wrap=false source="[.a<b]#para#\\n"', "the names of roles are not escaped (an existing test requires it): [.a<b]#para# gives malformed XHTML"),
 ("C02", 'slot=pinned backend=xhtml5 wrap=false source=":v: a < b\\n\\nc {v} d\\n"', "special characters of attribute values are escaped twice where the attribute is referenced (an existing test requires it)"),
 ("C27", 'libasciidoc ["-a" "x!"] with ":x: 1\\n\\n{x}\\n"', "`-a NAME!` does not unset the attribute NAME: it sets an attribute called `NAME!`"),
 ("C27", 'libasciidoc ["-a" "x=1" "-a" "x!"] with "{x}\\n"', "`-a NAME!` does not unset the attribute NAME set by a previous `-a`"),
 ("C27", 'libasciidoc ["-a" "table-caption!"] with ".T\\n|===\\n|a\\n|===\\n"', "`-a NAME!` does not unset the predefined attribute NAME"),
]
# repairs: (beginning of the message of the commit, property)
MORE_FIXED = [
    ("format the text of index terms as any", "C39"),
    ("keep all the options of a block", "C22"),
    ("no passthrough which starts right after", "C38"), ("accept letters after triple plus", "C38"), ("apply the rules of the boundaries of the quotes in passthrough", "C38"), ("look for passthroughs before email", "C38"),
    ("accept lists, dates and mappings in the front matter", "C13"), ("keep the formatted titles of images in the cross", "C23"),
    ("escape the roles of inline icons", "C02"),
 ("escape the special characters of escaped arrows", "C37"), ("render the escaped marks in passthroughs", "C01"), ("keep the backslashes before apostrophes", "C37"), ("replace the apostrophes in titles", "C37"),
 ("accept several spaces or a tab after the label", "C34"), ("attach the block after a comment that follows", "C18"), ("render the roles of inline icons", "C34"), ("keep the URLs of the directories of icons", "C34"),
 ("no stray quote in icons without label", "C34"), ("close the row of the last term of horizontal", "C36"), ("a single break in lines with a mark", "C37"), ("break the lines of the items of lists", "C37"),
 ("do not change the configuration of the caller", "C07"), ("do not share the attributes of the caller", "C07"),
 ("read lines of any length", "C09"),
 ("do not panic on level offsets below", "C11"), ("select the other lines when all tags", "C12"), ("include files as if their content", "C11"),
 ("render the ids and roles of the paragraphs", "C23"),
 ("do not lose the blocks with invalid columns", "C01"),
 ("render the blocks of AsciiDoc cells in the header", "C01"),
 ("replace the predefined attributes in the values", "C13"), ("apply the verbatim substitutions in literal", "C13"),
 ("substitute the counters in the titles", "C14"), ("substitute the counters of a location", "C14"),
 ("give columns to all the cells of the header", "C22"),
 ("end paragraphs at the delimiters", "C19"),
 ("accept dashes and underscores in the names of footnotes", "C17"), ("enable the experimental macros when", "C13"),
 ("do not lose the content attached", "C18"), ("do not swallow the blank line after a thematic", "C18"),
 ("escape buttons, menus", "C02"),
 ("format the labels of links", "C23"), ("resolve the cross references by title", "C23"),
 ("labels of cross references with a single", "C23"), ("substitute the attributes in the labels", "C23"),
 ("format a quoted text at the beginning of a section", "C15"),
 ("unique section ids", "C15"), ("cross references to elements", "C23"), ("no endless rendering", "C23"),
 ("fall back on the defaults for unknown icons", "C01"), ("render inline images with a footnote", "C01"),
 ("give precedence to the author", "C13"), ("number the sections when the attribute", "C15"),
 ("do not double the line breaks after highlighted", "C32"), ("render the source blocks with markup", "C32"),
 ("escape the special characters when the attributes", "C20"), ("accept spaces around the names of substitutions", "C20"),
 ("accept empty quoted values", "C20"), ("link to FTP and IRC", "C29"), ("link whole email addresses", "C29"),
 ("no closing punctuation at the end of URLs", "C29"), ("keep the markup in the texts of links", "C29"), ("accept = in the values of named", "C29"),
 ("accept underscores in the names of attributes", "C13"), ("accept revision numbers of one character", "C28"),
 ("accept attributes, resets and comments before the title", "C28"), ("show all the authors of the document", "C28"),
 ("find and embed images whatever", "C29"),
 ("replace the references to attributes in the values and attributes of user", "C30"), ("find user macros whatever", "C30"),
 ("give the Name section", "C31"), ("accept attribute entries around the Name", "C31"),
 ("look at the whole character", "C21"), ("format the text right after a comma", "C21"), ("format the labels of internal", "C21"),
 ("keep the escaped text as it is", "C21"), ("format the text at the beginning of unconstrained", "C21"),
 ("do not format text which follows a new line", "C21"),
]
