package props

import (
	"strings"

	"verif/mc/core"
)

// container places a block in another one.
type container struct {
	name   string
	before string
	after  string
	inList bool   // blocks are joined with list continuations
	fence  string // delimiter used by the container
}

var containers = []container{
	{name: "root"},
	{name: "example", before: "=====\n", after: "\n=====", fence: "====="},
	{name: "sidebar", before: "*****\n", after: "\n*****", fence: "*****"},
	{name: "quote", before: "_____\n", after: "\n_____", fence: "_____"},
	{name: "open", before: "--\n", after: "\n--", fence: "--"},
	{name: "admonition", before: "[NOTE]\n=====\n", after: "\n=====", fence: "====="},
	{name: "ulist", before: "* «\n+\n", inList: true},
	{name: "ulist-2", before: "* «\n** «\n+\n", inList: true},
	{name: "olist", before: ". «\n+\n", inList: true},
	{name: "dlist", before: "«::\n+\n", inList: true},
	{name: "dlist-second", before: "«:: «\nterm::: «\nterm::: «\n+\n", inList: true},
	{name: "colist-second", before: "<1> «\n<2> «\n+\n", inList: true},
	{name: "ulist-ancestor", before: "* «\n* «\n** «\n. «\n\n\n+\n", inList: true},
	{name: "section", before: "== «\n\n"},
	{name: "a-cell", before: "|===\na|\n", after: "\n|===", fence: "|==="},
	{name: "example-in-example", before: "======\n=====\n", after: "\n=====\n======", fence: "====="},
	{name: "open-in-list", before: "* «\n+\n--\n", after: "\n--", fence: "--"},
}

// features of a block which matter for its composition
type feature int

const (
	fList     feature = 1 << iota // merges with an adjacent list
	fSection                      // sections: not in a container
	fFootnote                     // numbered over the document
	fCaption                      // numbered over the document
	fAttr                         // changes the attributes or the counters
	fPending                      // block attributes without a block
	fTable                        // contains table delimiters
	fMulti                        // several blocks: needs an open block in a list element
	fOpen                         // uses the delimiter of open blocks
	fNothing                      // no output
	fIDs                          // registers identifiers
	fToc
	fCallouts
	fPlain // a plain paragraph
)

var blockFeatures = map[string]feature{
	"paragraph-footnote": fFootnote, "paragraph-footnoteref": fFootnote,
	"paragraph-attr": fAttr | fMulti, "paragraph-counter": fAttr,
	"attr-decl": fAttr | fNothing, "title-only": fPending | fNothing, "attributes-only": fPending | fNothing,
	"example-block-title": fCaption, "table-header": fCaption | fTable, "image-block-title": fCaption, "example-block": 0,
	"table": fTable, "table-implicit-header": fTable, "table-a-cell": fTable, "table-autowidth": fTable,
	"section": fSection | fMulti, "section-formatted": fSection | fMulti, "section-id": fSection | fMulti, "section-deep": fSection | fMulti, "discrete": fSection | fMulti,
	"toc-macro": fToc, "blank-lines": fNothing, "comment-line": fNothing, "comment-block": fNothing, "comment-style-paragraph": fNothing, "ifdef": fNothing,
	"open-block": fOpen, "open-block-style": fOpen, "dlist-below": fOpen | fList | fMulti,
	"ulist": fList, "ulist-dash": fList, "ulist-continuation": fList | fMulti, "ulist-checklist": fList, "ulist-interactive": fList, "ulist-attached-literal": fList | fMulti,
	"olist": fList, "olist-styles": fList, "olist-arabic": fList, "dlist": fList, "dlist-qanda": fList, "dlist-horizontal": fList, "mixed-lists": fList, "indented-list": fList,
	"source-block-callouts": fCallouts | fMulti | fList, "colist": fList,
	"user-macro-block": 0,
}

func (b block) has(f feature) bool {
	x := blockFeatures[b.name]
	switch b.name {
	case "quoted-paragraph", "user-macro-block", "ifndef", "comment-line-in-paragraph":
		x |= fPlain
	}
	if (strings.HasPrefix(b.name, "paragraph") || b.name == "page-break" || b.name == "unterminated-lookalikes") && b.src[0] != '.' && !(b.src[0] == '[' && strings.Contains(b.src, "]\n")) {
		x |= fPlain
	}
	return x&f != 0
}

// fits tells if the block can be placed in the container without a change of its meaning.
func (b block) fits(c container) bool {
	if c.name == "root" || c.name == "section" {
		return !(c.name == "section" && b.has(fSection|fToc))
	}
	if b.has(fSection | fToc | fPending) {
		return false
	}
	if c.fence != "" {
		for _, l := range strings.Split(b.src, "\n") {
			if l == c.fence {
				return false
			}
		}
	}
	if strings.Contains(c.name, "a-cell") && (b.has(fTable|fMulti) || strings.Contains(b.src, "|") || strings.Contains(b.src, "\n\n") || strings.HasPrefix(b.src, "\n")) {
		return false
	}
	if c.inList && b.name == "markdown-quote" {
		return false // its lines swallow what follows, continuations included
	}
	if c.inList && (b.has(fMulti|fList|fNothing) || strings.Contains(b.src, "\n\n") && !delimited(b.src)) {
		return false
	}
	return true
}

func delimited(src string) bool {
	l := strings.Split(src, "\n")
	switch l[len(l)-1] {
	case "----", "....", "====", "____", "****", "++++", "////", "```", "--", "|===":
		return true
	}
	return false
}

func pickBlock(g *core.Gen, c container) (block, bool) {
	b := core.PickOf(g, corpusBlocks)
	return b, b.fits(c)
}

// nest picks a container, or two nested ones, and returns the text before and after their content
func nest(g *core.Gen) (before, after string, in [2]container, ok bool) {
	c1, c2 := core.PickOf(g, containers), core.PickOf(g, containers)
	if c2.name == "section" || c1.inList && c2.inList || c1.fence != "" && c1.fence == c2.fence || strings.Contains(c1.name, "a-cell") && c2.name != "root" || c1.name == "root" && c2.name != "root" {
		return "", "", in, false // to nest lists, delimiters and cells is the matter of other checks
	}
	if strings.Contains(c1.before, "--\n") && strings.Contains(c2.before, "--\n") {
		return "", "", in, false
	}
	return strings.ReplaceAll(c1.before+c2.before, "«", "item"), c2.after + c1.after, [2]container{c1, c2}, true
}
