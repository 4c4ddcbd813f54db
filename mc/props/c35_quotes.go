package props

import (
	"strings"

	"verif/mc/core"
)

// quoteKinds: the ways to write a quote or a verse. %A is the style with the attribution, « the content
var quoteKinds = []struct {
	name, src string
	verse     bool
	block     bool // whether its content is made of blocks
	styled    bool
}{
	{"quote block", "%A\n____\n«\n____", false, true, true},
	{"quote long block", "%A\n______\n«\n______", false, true, true},
	{"quote paragraph", "%A\n«", false, false, true},
	{"verse block", "%A\n____\n«\n____", true, true, true},
	{"verse paragraph", "%A\n«", true, false, true},
	{"plain block", "____\n«\n____", false, true, false},
	{"markdown", "> «", false, false, false},
}

// attributions: how they are written, and their parts
var attributions = []struct{ src, first, second string }{
	{"", "", ""},
	{",A", "A", ""},
	{", A b", "A b", ""},
	{",A,B", "A", "B"},
	{", A , B c ", "A", "B c"},
	{",\"A, b\",\"C, d\"", "A, b", "C, d"},
	{",,B", "B", ""},
	{",{y},{y} B", "value", "value B"},
	{",A & b,<c>", "A &amp; b", "&lt;c&gt;"},
	{",A.-b_c/d:(e),f;g!", "A.-b_c/d:(e)", "f;g!"},
	{",\"A\",B", "A", "B"},
	{",'A, b',B", "A, b", "B"},
	{",É ü,世", "É ü", "世"},
	{",A,", "A", ""},
	{",\"A \\\"b\\\" c\",B", "A &#34;b&#34; c", "B"},
}

var quoteTexts = [][2]string{
	{"a", "a"}, {"a\nb", "a\nb"}, {"*a* {y}\n`b`", "<strong>a</strong> value\n<code>b</code>"}, {"a\n. b", "a\n. b"}, {"a +\nb", "a<br>\nb"}, {"a & <b>\n  c", "a &amp; &lt;b&gt;\n  c"},
}

var verseBlocks = [][2]string{
	{"a", "a"}, {"a\n\nb", "a\n\nb"}, {"a\n\n\n  b\n c", "a\n\n\n  b\n c"}, {"* a\n. b\n\nc:: d", "* a\n. b\n\nc:: d"}, {"*a* {y}\n\n_b_", "<strong>a</strong> value\n\n<em>b</em>"},
	{"----\na\n----", "----\na\n----"}, {"== a\n\n.b\n[c]\nd", "== a\n\n.b\n[c]\nd"}, {"  a\n b", "  a\n b"}, {"a +\nb", "a<br>\nb"}, {"NOTE: a\n|===\n'''", "NOTE: a\n|===\n'''"}, {"http://a.b[c] <d> & e", `<a href="http://a.b">c</a> &lt;d&gt; &amp; e`},
}

func paraHTML(s string) string { return "<div class=\"paragraph\">\n<p>" + s + "</p>\n</div>\n" }

var quoteBlocks = [][2]string{
	{"a", paraHTML("a")}, {"a\nb\n\nc", paraHTML("a\nb") + paraHTML("c")}, {"* a", "<div class=\"ulist\">\n<ul>\n<li>\n<p>a</p>\n</li>\n</ul>\n</div>\n"},
	{"----\na\n----", "<div class=\"listingblock\">\n<div class=\"content\">\n<pre>a</pre>\n</div>\n</div>\n"}, {"", ""}, {"// a\n\nb", paraHTML("b")},
	{"[quote,C]\nd", quoteHTML(false, "", "", "", "d\n", "C", "")}, {"[verse,C,D]\n________\ne\n\nf\n________", quoteHTML(true, "", "", "", "e\n\nf", "C", "D")},
	{"*a* {y}", paraHTML("<strong>a</strong> value")}, {"====\na\n====", "<div class=\"exampleblock\">\n<div class=\"content\">\n" + paraHTML("a") + "</div>\n</div>\n"},
}

// quoteHTML is the expected quote (or verse) with that content
func quoteHTML(verse bool, id, roles, title, content, first, second string) string {
	if id != "" {
		id = ` id="` + id + `"`
	}
	if roles != "" {
		roles = " " + roles
	}
	if title != "" {
		title = "<div class=\"title\">" + title + "</div>\n"
	}
	class := "quoteblock"
	if verse {
		class = "verseblock"
		content = "<pre class=\"content\">" + content + "</pre>\n"
	} else {
		content = "<blockquote>\n" + content + "</blockquote>\n"
	}
	if first != "" {
		if second != "" {
			first += "<br>\n<cite>" + second + "</cite>"
		}
		content += "<div class=\"attribution\">\n&#8212; " + first + "\n</div>\n"
	}
	return "<div" + id + " class=\"" + class + roles + "\">\n" + title + content + "</div>\n"
}

// blockContexts: the places where a block can be: what is before and after, and how they are rendered
var blockContexts = []struct{ before, after, htmlBefore, htmlAfter string }{
	{"", "\n", "", ""},
	{"x\n\n", "\n\ny\n", paraHTML("x"), paraHTML("y")},
	{"****\n", "\n****\n", "<div class=\"sidebarblock\">\n<div class=\"content\">\n", "</div>\n</div>\n"},
	{"* x\n+\n", "\n", "<div class=\"ulist\">\n<ul>\n<li>\n<p>x</p>\n", "</li>\n</ul>\n</div>\n"},
	{". x\n+\n", "\n. y\n", "<div class=\"olist arabic\">\n<ol class=\"arabic\">\n<li>\n<p>x</p>\n", "</li>\n<li>\n<p>y</p>\n</li>\n</ol>\n</div>\n"},
	{"== S\n\n", "\n", "<div class=\"sect1\">\n<h2 id=\"_s\">S</h2>\n<div class=\"sectionbody\">\n", "</div>\n</div>\n"},
	{"[quote,Q]\nq\n\n", "\n\n[verse,V]\nv\n", quoteHTML(false, "", "", "", "q\n", "Q", ""), quoteHTML(true, "", "", "", "v", "V", "")},
}

func xhtmlBreaks(s, backend string) string {
	if backend == "xhtml5" {
		return strings.ReplaceAll(s, "<br>", "<br/>")
	}
	return s
}

func c35Families(tier string) []core.Family {
	return []core.Family{
		{Name: "quotes", Gen: func(g *core.Gen) *core.Case {
			f := core.PickOf(g, quoteKinds)
			backend := g.Pick("html5", "xhtml5")
			style := "quote"
			if f.verse {
				style = "verse"
			}
			first, second := "", ""
			src := f.src
			lines, id, roles, title := "", "", "", ""
			if f.styled {
				a := core.PickOf(g, attributions)
				first, second = a.first, a.second
				switch g.Choose(3) {
				case 0:
				case 1:
					style, id, roles = style+"#i.r", "i", "r"
				case 2:
					style, roles = style+".r.s", "r s"
				}
				src = strings.Replace(src, "%A", "["+style+a.src+"]", 1)
			}
			texts := quoteTexts
			switch {
			case f.verse && f.block:
				texts = verseBlocks
			case f.block:
				texts = quoteBlocks
			}
			c := core.PickOf(g, texts)
			content := c[0]
			html := c[1]
			switch {
			case f.name == "markdown":
				if strings.Contains(content, "  c") {
					return g.Skip()
				}
				if g.Bool() { // (lazy continuations otherwise)
					content = strings.ReplaceAll(content, "\n", "\n> ")
				}
				html = paraHTML(html)
				switch g.Choose(4) {
				case 1:
					content, first = content+"\n> -- A b", "A b"
				case 2:
					content, first = content+"\n-- A", "A"
				case 3:
					content, first = content+"\n> -- A, B", "A, B"
				}
			case !f.verse && !f.block:
				html += "\n"
			}
			src = strings.Replace(src, "«", content, 1)
			switch g.Choose(5) {
			case 1:
				lines, title = ".t *u*\n", "t <strong>u</strong>"
			case 2:
				if id != "" {
					return g.Skip()
				}
				lines, id = "[[j]]\n", "j"
			case 3:
				if roles != "" {
					return g.Skip()
				}
				lines, roles = "[role=q]\n", "q"
			case 4:
				lines = "// c\n"
			}
			x := core.PickOf(g, blockContexts)
			if strings.Contains(x.before, "+") && strings.Contains(content, "\n. b") {
				return g.Skip()
			}
			if strings.Contains(x.before, "+") && f.name == "markdown" || strings.Contains(x.before, "***") && f.name == "markdown" && first == "" && false {
				return g.Skip()
			}
			want := x.htmlBefore + quoteHTML(f.verse, id, roles, title, html, first, second) + x.htmlAfter
			return c34Check(x.before+lines+src+x.after, xhtmlBreaks(want, backend), map[string]interface{}{"y": "value"}, backend)
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C35", Title: "Quotes and verses are shown with their content and attribution", Families: c35Families,
		Bounds: "7 ways to write quotes and verses with 15 attributions, 27 contents, 5 sets of attributes and 7 places, in both backends",
	})
}
