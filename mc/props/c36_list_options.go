package props

import (
	"strings"

	"verif/mc/core"
)

// numbering styles of ordered lists, with the type of their numbers
var numberingStyles = [][2]string{{"", ""}, {"arabic", ""}, {"loweralpha", "a"}, {"upperalpha", "A"}, {"lowerroman", "i"}, {"upperroman", "I"}, {"decimal", ""}, {"lowergreek", ""}}

// the markers of ordered lists, with their style
var numberedMarkers = []struct{ first, second, style string }{
	{".", ".", ""}, {"1.", "2.", "arabic"}, {"a.", "b.", "loweralpha"}, {"A.", "B.", "upperalpha"}, {"i)", "ii)", "lowerroman"}, {"I)", "II)", "upperroman"},
}

var dotStyles = []string{"arabic", "loweralpha", "lowerroman", "upperalpha", "upperroman"}

func numberType(style string) string {
	for _, s := range numberingStyles {
		if s[0] == style && s[1] != "" {
			return ` type="` + s[1] + `"`
		}
	}
	return ""
}

type listAttrs struct{ src, id, roles, title string }

// listAttributes are the attributes which any list may have, besides its style
func listAttributes(g *core.Gen) listAttrs {
	switch g.Dev(5) {
	case 1:
		return listAttrs{"[#i]\n", "i", "", ""}
	case 2:
		return listAttrs{"[.r]\n", "", "r", ""}
	case 3:
		return listAttrs{".t *u*\n", "", "", "t <strong>u</strong>"}
	case 4:
		return listAttrs{"[[i]]\n.t\n[role=\"r s\"]\n", "i", "r s", "t"}
	}
	return listAttrs{}
}

func listHTML(class, tag, attrs string, a listAttrs, items string) string {
	if a.id != "" {
		a.id = ` id="` + a.id + `"`
	}
	if a.roles != "" {
		a.roles = " " + a.roles
	}
	if a.title != "" {
		a.title = "<div class=\"title\">" + a.title + "</div>\n"
	}
	return "<div" + a.id + " class=\"" + class + a.roles + "\">\n" + a.title + "<" + tag + attrs + ">\n" + items + "</" + tag + ">\n</div>\n"
}

// checkbox is the mark of an item of a checklist
func checkbox(mark string, interactive bool, backend string) string {
	switch {
	case mark == "":
		return ""
	case !interactive && mark == "[ ]":
		return "&#10063; "
	case !interactive:
		return "&#10003; "
	case mark == "[ ]" && backend == "xhtml5":
		return `<input type="checkbox" data-item-complete="0"/> `
	case mark == "[ ]":
		return `<input type="checkbox" data-item-complete="0"> `
	case backend == "xhtml5":
		return `<input type="checkbox" data-item-complete="1" checked="checked"/> `
	}
	return `<input type="checkbox" data-item-complete="1" checked> `
}

// itemTexts: the text of an item, and its lines
var itemTexts = [][2]string{{"a", "a"}, {"a\nb", "a\nb"}, {"*a* {y}", "<strong>a</strong> value"}, {"a +\nb", "a<br>\nb"}, {"a & <b>", "a &amp; &lt;b&gt;"}}

func attributeLine(parts ...string) string {
	var p []string
	for _, x := range parts {
		if x != "" {
			p = append(p, x)
		}
	}
	if len(p) == 0 {
		return ""
	}
	return "[" + strings.Join(p, ",") + "]\n"
}

func c36Families(tier string) []core.Family {
	thorough := tier == "thorough"
	attrs := map[string]interface{}{"y": "value"}
	budget := 2
	if thorough {
		budget = 4
	}
	li := func(s string) string { return "<li>\n" + s + "</li>\n" }
	p := func(s string) string { return "<p>" + s + "</p>\n" }
	contexts := blockContexts[:3]
	if thorough {
		contexts = blockContexts
	}
	in := func(g *core.Gen, a listAttrs, src, html, backend string) *core.Case {
		x := contexts[g.Dev(len(contexts))]
		if strings.HasSuffix(src, "::\n") && strings.HasPrefix(x.after, "\n\ny") { // (y would be the description)
			return g.Skip()
		}
		if strings.Contains(x.before, "+\n") && x.before != "* x\n+\n" || x.before == "* x\n+\n" { // a list cannot be attached
			return g.Skip()
		}
		return c34Check(x.before+src+x.after, x.htmlBefore+xhtmlBreaks(html, backend)+x.htmlAfter, attrs, backend)
	}
	return []core.Family{
		{Name: "ordered", Gen: func(g *core.Gen) *core.Case {
			backend := g.Pick("html5", "xhtml5")
			g.SetBudget(budget)
			m := core.PickOf(g, numberedMarkers)
			style := core.PickOf(g, numberingStyles)[0]
			start := []string{"", "start=4", "start=\"10\""}[g.Dev(3)]
			reversed := []string{"", "%reversed", "options=reversed", "opts=\"reversed\""}[g.Dev(4)]
			a := listAttributes(g)
			line := ""
			positional := style
			if strings.HasPrefix(reversed, "%") {
				positional += reversed
				line = attributeLine(positional, start)
			} else {
				line = attributeLine(positional, start, reversed)
			}
			st := style
			if st == "" {
				st = m.style
			}
			if st == "" {
				st = dotStyles[0]
			}
			at := ` class="` + st + `"` + numberType(st)
			if start != "" {
				at += ` start="` + strings.Trim(start[6:], "\"") + `"`
			}
			if reversed != "" {
				at += " reversed"
			}
			items, html := m.first+" x\n", li(p("x"))
			t := itemTexts[g.Dev(len(itemTexts))]
			sub := g.Dev(4)
			switch {
			case sub == 1: // a nested list with the style of its level
				items += ".. y\n"
				if m.first != "." {
					items = strings.Replace(items, "..", ".", 1)
					html = li(p("x") + listHTML("olist arabic", "ol", ` class="arabic"`, listAttrs{}, li(p("y"))))
					if m.style == "arabic" || m.style == "loweralpha" || m.style == "upperalpha" || m.style == "lowerroman" || m.style == "upperroman" {
						return g.Skip() // (the style of the nested list is the one after the one of its parent)
					}
				} else {
					html = li(p("x") + listHTML("olist loweralpha", "ol", ` class="loweralpha" type="a"`, listAttrs{}, li(p("y"))))
				}
			case sub == 2: // a nested list with its own style
				items += "[upperroman,start=7]\n* y\n"
				html = li(p("x") + listHTML("ulist upperroman", "ul", ` class="upperroman"`, listAttrs{}, li(p("y"))))
				return g.Skip()
			case sub == 3:
				items += "\n"
			}
			items += m.second + " " + t[0] + "\n"
			html += li(p(t[1]))
			a.src += line
			return in(g, a, a.src+items, listHTML("olist "+st, "ol", at, a, html), backend)
		}},
		{Name: "unordered", Gen: func(g *core.Gen) *core.Case {
			backend := g.Pick("html5", "xhtml5")
			g.SetBudget(budget)
			style := []string{"", "square", "circle", "none", "disc"}[g.Dev(5)]
			inter := []string{"", "%interactive", "options=interactive", "opts=\"interactive\""}[g.Dev(4)]
			a := listAttributes(g)
			if strings.HasPrefix(inter, "%") {
				a.src += attributeLine(style + inter)
			} else {
				a.src += attributeLine(style, inter)
			}
			marker := []string{"*", "-", "**"}[g.Dev(3)]
			n := 1 + g.Choose(3)
			items, html := "", ""
			check := false
			for i := 0; i < n; i++ {
				mark := g.Pick("", "[ ]", "[x]", "[*]")
				if i == 0 {
					check = mark != ""
				}
				text := [2]string{"a", "a"}
				if i == n-1 {
					text = itemTexts[g.Dev(len(itemTexts))]
				}
				items += marker + " " + strings.TrimPrefix(mark+" ", " ") + text[0] + "\n"
				nested := ""
				if i == 0 && g.Bool() {
					m := g.Pick("", "[ ]", "[x]")
					sub := "***"
					items += sub + " " + strings.TrimPrefix(m+" ", " ") + "z\n"
					class, at := "ulist", ""
					if m != "" {
						class, at = "ulist checklist", ` class="checklist"`
					}
					nested = listHTML(class, "ul", at, listAttrs{}, li(p(checkbox(m, false, backend)+"z")))
				}
				html += li(p(checkbox(mark, inter != "", backend)+text[1]) + nested)
			}
			class, at := "ulist", ""
			if check {
				class, at = "ulist checklist", ` class="checklist"`
			}
			if style != "" {
				class += " " + style
				if at == "" {
					at = ` class="` + style + `"`
				}
			}
			return in(g, a, a.src+items, listHTML(class, "ul", at, a, html), backend)
		}},
		{Name: "labeled", Gen: func(g *core.Gen) *core.Case {
			backend := g.Pick("html5", "xhtml5")
			g.SetBudget(budget)
			style := g.Pick("", "horizontal", "qanda")
			a := listAttributes(g)
			sep := "::"
			a.src += attributeLine(style)
			max := 2
			if thorough {
				max = 3
			}
			n := 1 + g.Choose(max)
			src, html := "", ""
			open := false
			for i := 0; i < n; i++ {
				term := [][2]string{{"a", "a"}, {"*a* {y}", "<strong>a</strong> value"}}[g.Dev(2)]
				desc := core.PickOf(g, [][2]string{{"", ""}, {" b", p("b")}, {"\nb\nc", p("b\nc")}, {" b\n+\n----\nc\n----", p("b") + "<div class=\"listingblock\">\n<div class=\"content\">\n<pre>c</pre>\n</div>\n</div>\n"},
					{" b\n* c", p("b") + listHTML("ulist", "ul", "", listAttrs{}, li(p("c")))}, {"\nc::: d", listHTML("dlist", "dl", "", listAttrs{}, "<dt class=\"hdlist1\">c</dt>\n<dd>\n<p>d</p>\n</dd>\n")},
					{"\n\nb", p("b")}, {"\n. b", listHTML("olist arabic", "ol", ` class="arabic"`, listAttrs{}, li(p("b")))}})
				src += term[0] + sep + desc[0] + "\n"
				if i < n-1 && g.Dev(2) == 1 {
					src += "\n"
				}
				switch style {
				case "":
					html += "<dt class=\"hdlist1\">" + term[1] + "</dt>\n"
					if desc[1] != "" {
						html += "<dd>\n" + desc[1] + "</dd>\n"
					}
				case "qanda":
					html += li("<p><em>" + term[1] + "</em></p>\n" + desc[1])
				case "horizontal":
					if open {
						html += "<br>\n"
					} else {
						html += "<tr>\n<td class=\"hdlist1\">\n"
					}
					html += term[1] + "\n"
					open = desc[1] == "" && i < n-1
					if !open {
						html += "</td>\n<td class=\"hdlist2\">\n" + desc[1] + "</td>\n</tr>\n"
					}
				}
			}
			class, tag := "dlist", "dl"
			switch style {
			case "qanda":
				class, tag = "qlist qanda", "ol"
			case "horizontal":
				class, tag = "hdlist", "table"
			}
			return in(g, a, a.src+src, listHTML(class, tag, "", a, html), backend)
		}},
		{Name: "terms", Gen: func(g *core.Gen) *core.Case {
			// all sequences of terms with and without a description
			backend := g.Pick("html5", "xhtml5")
			style := g.Pick("", "horizontal", "qanda")
			max := 5
			if thorough {
				max = 8
			}
			n := 1 + g.Choose(max)
			src, html := attributeLine(style), ""
			open := false
			for i := 0; i < n; i++ {
				term := string(rune('a' + i))
				src += term + "::"
				desc := ""
				if g.Bool() {
					src += " " + term + "d"
					desc = p(term + "d")
				}
				src += "\n"
				switch style {
				case "":
					html += "<dt class=\"hdlist1\">" + term + "</dt>\n"
					if desc != "" {
						html += "<dd>\n" + desc + "</dd>\n"
					}
				case "qanda":
					html += li("<p><em>" + term + "</em></p>\n" + desc)
				case "horizontal":
					if open {
						html += "<br>\n"
					} else {
						html += "<tr>\n<td class=\"hdlist1\">\n"
					}
					html += term + "\n"
					open = desc == "" && i < n-1
					if !open {
						html += "</td>\n<td class=\"hdlist2\">\n" + desc + "</td>\n</tr>\n"
					}
				}
			}
			class, tag := "dlist", "dl"
			switch style {
			case "qanda":
				class, tag = "qlist qanda", "ol"
			case "horizontal":
				class, tag = "hdlist", "table"
			}
			return in(g, listAttrs{}, src, listHTML(class, tag, "", listAttrs{}, html), backend)
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C36", Title: "Lists are shown in the style and with the options they ask for", Families: c36Families,
		Bounds: "ordered lists with 6 markers, 8 styles, 3 starts and 4 ways to reverse them; unordered lists of up to 3 items with 5 styles, 4 ways to make them interactive and all sequences of marks of checklists; labeled lists of up to 2 (thorough: 3) terms with 3 styles and 8 descriptions, all sequences of up to 5 (thorough: 8) terms with and without descriptions; all but the latter with up to 2 (thorough: 4) deviations among the attributes, texts, separations and 3 (thorough: 7) places, in both backends",
	})
}
