package props

import (
	"fmt"
	"strings"
)

// block is a snippet of document: '«' stands for a word which is visible in the output, '»' for a
// word which is not, '¤' for a visible word which moves (attributions, captions below). Each occurrence is replaced by a different word.
type block struct {
	name string
	src  string
}

// fill replaces the place holders of the snippet with words made of the prefix and a number.
func fill(src, prefix string) (out string, visible, hidden []string) {
	n := 0
	sb := &strings.Builder{}
	for _, r := range src {
		switch r {
		case '«':
			n++
			w := fmt.Sprintf("w%s%dv", prefix, n)
			visible = append(visible, w)
			sb.WriteString(w)
		case '¤': // visible, but not in the order of the source
			n++
			w := fmt.Sprintf("y%s%dv", prefix, n)
			visible = append(visible, w)
			sb.WriteString(w)
		case '»':
			n++
			w := fmt.Sprintf("h%s%dh", prefix, n)
			hidden = append(hidden, w)
			sb.WriteString(w)
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String(), visible, hidden
}

// corpusBlocks: one snippet (at least) for each kind of block, and the variations that matter.
var corpusBlocks = []block{
	{"paragraph", "«"},
	{"paragraph-2-lines", "«\n«"},
	{"paragraph-title-role", ".«\n[.role]\n«"},
	{"paragraph-id", "[#»]\n«"},
	{"paragraph-legacy-id", "[[»]]\n«"},
	{"paragraph-bold", "a *«* b"},
	{"paragraph-nested-quotes", "*« _« `«`_*"},
	{"paragraph-unconstrained", "a**«**b__«__c``«``d"},
	{"paragraph-marked", "[.r]#«# ^«^ ~«~"},
	{"paragraph-special", "« < « & « > \"«\""},
	{"paragraph-symbols", "« -- « ... (C) « -> «"},
	{"paragraph-hardbreak", "« +\n«"},
	{"paragraph-hardbreaks-option", "[%hardbreaks]\n«\n«"},
	{"paragraph-link", "https://example.com/»[«]"},
	{"paragraph-bare-link", "see https://example.com/« now"},
	{"paragraph-link-macro", "link:/path/»[«,window=_blank]"},
	{"paragraph-mailto", "mailto:a@b.cd[«]"},
	{"paragraph-image", "« image:»png.png[«] «"},
	{"paragraph-icon", "« icon:tip[] «"},
	{"paragraph-passthrough", "+«+ ++«++ +++«+++ pass:[«] pass:q[*«*]"},
	{"paragraph-footnote", "« footnote:[«] «"},
	{"paragraph-footnoteref", "« footnote:fnid[«] « footnote:fnid[]"},
	{"paragraph-xref", "<<somewhere,«>> « xref:other.adoc[«]"},
	{"paragraph-anchor", "[[»]]« «"},
	{"paragraph-index-terms", "((«)) (((»,»))) «"},
	{"paragraph-btn-menu", "btn:[«] menu:«[«]"},
	{"paragraph-attr", ":attr-a: «\n\n{attr-a} «"},
	{"paragraph-counter", "« {counter:cnt} {counter2:cnt} «"},
	{"paragraph-escaped", "\\*«* \\{attr} \\<<«>>"},
	{"paragraph-stem", "« $ % @ « ? !"},
	{"paragraph-usermacro", "« foo:bar[x] «"},
	{"lead", "[.lead]\n« *«*"},
	{"admonition-paragraph", "NOTE: « *«*"},
	{"admonition-style-paragraph", "[WARNING]\n.«\n«"},
	{"admonition-block", "[TIP]\n====\n«\n\n* «\n===="},
	{"literal-paragraph", " « *«*\n   «"},
	{"literal-style-paragraph", "[literal]\n« *«*"},
	{"literal-block", "....\n« *«*\n\n  « < «\n...."},
	{"listing-block", "----\n« *«*\n\n  « < «\n----"},
	{"listing-block-title", ".«\n[#»]\n----\n«\n----"},
	{"listing-style-paragraph", "[listing]\n« *«*"},
	{"source-block", "[source,go]\n----\nfunc «() { « }\n----"},
	{"source-block-callouts", "[source,go]\n----\nfunc «() { // <1>\n « <2>\n----\n<1> «\n<2> «"},
	{"source-style-paragraph", "[source,ruby]\n« «"},
	{"fenced-block", "```\n« *«*\n```"},
	{"fenced-block-lang", "```go\n« // <1>\n```"},
	{"example-block", "====\n«\n\n«\n===="},
	{"example-block-title", ".«\n====\n«\n===="},
	{"sidebar-block", ".«\n****\n« *«*\n****"},
	{"quote-block", "[quote,¤,¤]\n____\n« *«*\n\n«\n____"},
	{"quote-paragraph", "[quote,¤]\n« *«*"},
	{"quoted-paragraph", "\"« «\"\n-- «, «"},
	{"verse-block", "[verse,¤,¤]\n____\n« *«*\n\n«\n____"},
	{"verse-paragraph", "[verse,¤]\n« *«*\n«"},
	{"markdown-quote", "> «\n> «"},
	{"passthrough-block", "++++\n<b>«</b> *«*\n++++"},
	{"passthrough-paragraph", "[pass]\n<b>«</b> *«*"},
	{"open-block", "--\n«\n\n* «\n--"},
	{"open-block-style", "[source]\n--\n« *«*\n--"},
	{"comment-line", "// » »"},
	{"comment-line-in-paragraph", "«\n// »\n«"},
	{"comment-block", "////\n» *»*\n\n»\n////"},
	{"thematic-break", "'''"},
	{"thematic-break-md", "---"},
	{"page-break", "<<<"},
	{"ulist", "* «\n* «\n** «\n* «"},
	{"ulist-dash", "- «\n- «\n«"},
	{"ulist-continuation", "* «\n+\n«\n+\n----\n«\n----\n* «"},
	{"ulist-checklist", "* [x] «\n* [ ] «\n* «"},
	{"ulist-interactive", "[%interactive]\n* [x] «\n* [ ] «"},
	{"ulist-attached-literal", "* «\n\n  «\n\n* «"},
	{"olist", ". «\n.. «\n. «"},
	{"olist-styles", "[upperroman,start=3]\n. «\n. «\n[loweralpha]\n.. «"},
	{"olist-arabic", "1. «\n2. «\na. «\nb. «"},
	{"dlist", "«:: «\n«:: «\n«::: «"},
	{"dlist-below", "«::\n  «\n\n«::\n+\n--\n«\n--"},
	{"dlist-qanda", "[qanda]\n«:: «\n«:: «"},
	{"dlist-horizontal", "[horizontal]\n«:: «\n«:: «"},
	{"mixed-lists", "* «\n. «\n«:: «\n- «"},
	{"colist", "<1> «\n<2> «"},
	{"table", "|===\n|« |«\n|« |«\n|==="},
	{"table-header", ".«\n[cols=\"1,2\",options=\"header,footer\"]\n|===\n|« |«\n\n|« *«*\n|« < «\n|« |«\n|==="},
	{"table-implicit-header", "|===\n|« |«\n\n|«\n|«\n|==="},
	{"table-a-cell", "|===\na|* «\n|«\n|==="},
	{"table-autowidth", "[%autowidth,cols=\"<,^.>\",stripes=even,frame=none]\n|===\n|« |«\n|==="},
	{"image-block", "image::»png.png[«]"},
	{"image-block-title", ".¤\n[#»]\nimage::»png.png[«,100,200,link=»]"},
	{"section", "== «\n\n«"},
	{"section-formatted", "== « *«* `«`\n\n«"},
	{"section-id", "[#»]\n== «\n\n«"},
	{"section-deep", "=== «\n\n«\n\n==== «\n\n«"},
	{"discrete", "[discrete]\n=== «\n\n«"},
	{"attr-decl", ":some-attr: »\n:!some-attr:"},
	{"ifdef", "ifdef::not-set[]\n»\nendif::[]"},
	{"ifndef", "ifndef::not-set[]\n«\nendif::[]"},
	{"user-macro-block", "foo::bar[x]"},
	{"toc-macro", "toc::[]"},
	{"title-only", ".»"},
	{"attributes-only", "[.»]"},
	{"blank-lines", "\n\n"},
	{"indented-list", "  * «\n  * «"},
	{"example-nested", "====\n«\n\n=====\n«\n=====\n\n----\n«\n----\n===="},
	{"list-in-example", "====\n* «\n+\n«\n===="},
	{"unterminated-lookalikes", "« * « _ « ` « # « + « [ « ] « << « {"},
}

func blockNamed(name string) block {
	for _, b := range corpusBlocks {
		if b.name == name {
			return b
		}
	}
	panic("no block " + name)
}
