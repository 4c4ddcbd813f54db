package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// labels of buttons and items of menus
var uiLabels = []string{"a", "OK", "a b", "a & b", "a < b", "*a*", "é", "a-b", "_a_ `b`", "{x}", "a {x}", "a...", "(C)", "it's", "a/b", "1", "a -- b", "F+", "Ctrl+C", "http://a.b", "a|b", "a.b@c.de", "<<i>>", "#a#", "\\a", "a;b", "a:b", "((a))"}

var uiBefore = []string{"", "x ", "(", "*b* ", "x\n", "x, ", "é ", "{x} ", "-", "\"", "btn:[z] ", "menu:Z[] ", "((z)) ", "(((z))) "}
var uiAfter = []string{"", " y", "y", ".", ")", " *b*", "\ny", ", y", " {x}", "\"", " btn:[z]", " menu:Z[z]", " ((z))", " (((z)))", "-s"}

var uiAround = strings.NewReplacer("{x}", "value", "*b*", "<strong>b</strong>", "btn:[z]", `<b class="button">z</b>`, "menu:Z[]", `<b class="menuref">Z</b>`,
	"menu:Z[z]", `<span class="menuseq"><b class="menu">Z</b>&#160;<b class="caret">&#8250;</b> <b class="menuitem">z</b></span>`, "(((z)))", "", "((z))", "z")

func uiButton(label string) string {
	return `<b class="button">` + uiText(label) + "</b>"
}

func uiText(label string) string {
	return strings.ReplaceAll(escapeHTML(label), "{x}", "value")
}

func uiMenu(path ...string) string {
	if len(path) == 1 {
		return `<b class="menuref">` + uiText(path[0]) + "</b>"
	}
	s := `<span class="menuseq"><b class="menu">` + uiText(path[0]) + "</b>"
	for i, p := range path[1:] {
		c := "submenu"
		if i == len(path)-2 {
			c = "menuitem"
		}
		s += `&#160;<b class="caret">&#8250;</b> <b class="` + c + `">` + uiText(p) + "</b>"
	}
	return s + "</span>"
}

// uiTerms are the contents of index terms
var uiTerms = []struct{ src, html string }{
	{"a", "a"}, {"a b", "a b"}, {"*a*", "<strong>a</strong>"}, {"a _b_ c", "a <em>b</em> c"}, {"`a`", "<code>a</code>"}, {"a & b", "a &amp; b"}, {"a, b", "a, b"}, {"é", "é"}, {"a-b", "a-b"}, {"a.b", "a.b"}, {"#a#", "<mark>a</mark>"}, {"1", "1"}, {"a [b]", "a [b]"}, {"a:b", "a:b"},
	{"a _b_ c *d*", "a <em>b</em> c <strong>d</strong>"}, {"_b_ c *d* `e`", "<em>b</em> c <strong>d</strong> <code>e</code>"}, {"a*b*", "a*b*"}, {"a**b**", "a<strong>b</strong>"}, {"a (C) b", "a &#169; b"}, {"a's", "a&#8217;s"}, {"a...", "a&#8230;&#8203;"}, {"a -- b", "a&#8201;&#8212;&#8201;b"}, {"a \"`b`\" c", "a &#8220;b&#8221; c"}, {"a -> *b*", "a &#8594; <strong>b</strong>"},
}

func c39Case(src, text, html string) *core.Case {
	return &core.Case{Desc: fmt.Sprintf("%q", src), Check: func(r *core.Run) error {
		out, _, err := lib.Convert(src, lib.Opts{Attrs: map[string]interface{}{"x": "value", "experimental": ""}})
		if err != nil {
			return err
		}
		r.Outcome(out)
		n := strings.NewReplacer("&#34;", "\"", "&#39;", "'", "&#43;", "+")
		if !strings.Contains(n.Replace(out), n.Replace(html)) {
			return fmt.Errorf("- %q expected in\n+ %s", html, out)
		}
		return nil
	}}
}

func c39Families(tier string) []core.Family {
	thorough := tier == "thorough"
	inText := func(g *core.Gen, text, html string) *core.Case {
		b, a := core.PickOf(g, uiBefore), core.PickOf(g, uiAfter)
		if strings.HasSuffix(text, "))") && strings.HasSuffix(b, "(") || strings.HasPrefix(text, "((") && strings.HasSuffix(a, ")") && len(a) == 1 || strings.HasPrefix(b, "\"") != strings.HasSuffix(a, "\"") {
			return g.Skip()
		}
		if html == "" && (strings.TrimSpace(b) == "" || b == "x\n" || strings.TrimSpace(a) == "" || a == "\ny" || strings.Contains(a, "z") || strings.Contains(b, "z")) {
			return g.Skip() // (spaces at the ends of lines)
		}
		h := "<p>" + uiAround.Replace(b) + html + uiAround.Replace(a) + "</p>"
		if a == " (((z)))" || b == "(((z))) " {
			h = strings.TrimSuffix(strings.TrimPrefix(h, "<p>"), "</p>")
			h = strings.TrimSpace(h)
		}
		return c39Case(b+text+a+"\n", text, h)
	}
	path := func(g *core.Gen, labels []string, max int) (string, string) {
		id := g.Pick("A", "File", "a-b", "a_b", "É")
		n := g.Choose(max + 1)
		sep := ">"
		if n > 1 {
			sep = g.Pick(" > ", ">", "  >")
		}
		var p []string
		for i := 0; i < n; i++ {
			l := core.PickOf(g, labels)
			if strings.Contains(l, ">") {
				l = "a"
			}
			p = append(p, l)
		}
		return "menu:" + id + "[" + strings.Join(p, sep) + "]", uiMenu(append([]string{id}, p...)...)
	}
	few := []string{"a", "a b", "a & b", "{x}", "*a*", "é"}
	return []core.Family{
		{Name: "states", Gen: func(g *core.Gen) *core.Case {
			// all sequences of declarations and paragraphs
			config := g.Choose(2) == 1
			max := 5
			if thorough {
				max = 7
			}
			on := config
			src, want := "", ""
			for i := g.Choose(max) + 1; i > 0; i-- {
				switch g.Choose(6) {
				case 0:
					src += ":experimental:\n\n"
					on = true
				case 1:
					src += ":!experimental:\n\n"
					on = config
				case 2:
					src += "btn:[a]\n\n"
					if on {
						want += "<p>" + uiButton("a") + "</p>\n"
					} else {
						want += "<p>btn:[a]</p>\n"
					}
				case 3:
					src += "* menu:A[b]\n\n"
					if on {
						want += "<p>" + uiMenu("A", "b") + "</p>\n"
					} else {
						want += "<p>menu:A[b]</p>\n"
					}
				case 4:
					src += ":other: x\n\n"
				case 5:
					src += "====\nbtn:[c]\n\nmenu:A[]\n====\n\n"
					if on {
						want += "<p>" + uiButton("c") + "</p>\n<p>" + uiMenu("A") + "</p>\n"
					} else {
						want += "<p>btn:[c]</p>\n<p>menu:A[]</p>\n"
					}
				}
			}
			if want == "" {
				return g.Skip()
			}
			title := g.Pick("", "= T\n\n", "= T\n:experimental:\n\n")
			if strings.Contains(title, "exp") {
				if !config && strings.Contains(src, "experimental") || config {
					return g.Skip()
				}
				want = strings.NewReplacer("btn:[a]", uiButton("a"), "btn:[c]", uiButton("c"), "menu:A[b]", uiMenu("A", "b"), "menu:A[]", uiMenu("A")).Replace(want)
			}
			src = title + src
			o := lib.Opts{}
			if config {
				o.Attrs = map[string]interface{}{"experimental": ""}
			}
			return &core.Case{Desc: fmt.Sprintf("config=%t %q", config, src), Check: func(r *core.Run) error {
				out, _, err := lib.Convert(src, o)
				if err != nil {
					return err
				}
				r.Outcome(out)
				got := ""
				for _, l := range strings.Split(out, "\n") {
					if strings.HasPrefix(l, "<p>") {
						got += l + "\n"
					}
				}
				if got != want {
					return fmt.Errorf("- %q expected, got\n+ %q", want, got)
				}
				return nil
			}}
		}},
		{Name: "buttons", Gen: func(g *core.Gen) *core.Case {
			l := core.PickOf(g, uiLabels)
			return inText(g, "btn:["+l+"]", uiButton(l))
		}},
		{Name: "menus", Gen: func(g *core.Gen) *core.Case {
			labels, max := few, 2
			if thorough {
				max = 3
			}
			if g.Bool() {
				labels, max = uiLabels, 1
			}
			text, html := path(g, labels, max)
			return inText(g, text, html)
		}},
		{Name: "terms", Gen: func(g *core.Gen) *core.Case {
			t := core.PickOf(g, uiTerms)
			return inText(g, "(("+t.src+"))", t.html)
		}},
		{Name: "concealed", Gen: func(g *core.Gen) *core.Case {
			n := g.Choose(3) + 1
			var p []string
			for i := 0; i < n; i++ {
				p = append(p, g.Pick("a", "a b", "1", "é"))
			}
			return inText(g, "((("+strings.Join(p, g.Pick(",", ", ", " , "))+")))", "")
		}},
		{Name: "places", Gen: func(g *core.Gen) *core.Case {
			p := core.PickOf(g, linkPlaces)
			var text, html string
			switch g.Choose(4) {
			case 0:
				l := core.PickOf(g, uiLabels)
				text, html = "btn:["+l+"]", uiButton(l)
			case 1:
				text, html = path(g, few, 2)
			case 2:
				t := core.PickOf(g, uiTerms)
				text, html = "(("+t.src+"))", t.html
			case 3:
				text, html = g.Pick("(((a)))", "(((a, b)))", "(((a,b,c)))"), ""
			}
			a := g.Pick(" y", ". y")
			if strings.Contains(p.src, "subs=") && (strings.ContainsAny(text, "{&'") || strings.Contains(html, "&#")) {
				return g.Skip()
			}
			text, html = "x "+text+a, "x "+html+a
			if strings.HasPrefix(p.src, "==") || strings.Contains(p.src, "footnote") && strings.Contains(text, "]") {
				return g.Skip()
			}
			if strings.Contains(text, "|") && strings.Contains(p.src, "|===") || strings.Contains(text, "*") && strings.Contains(p.src, "*«*") || strings.Contains(text, "_") && strings.Contains(p.src, "_a") {
				return g.Skip()
			}
			return c39Case(strings.ReplaceAll(p.src, "«", text), text, strings.ReplaceAll(p.html, "«", html))
		}},
		{Name: "breaks", Gen: func(g *core.Gen) *core.Case {
			b := g.Pick("'''", "''' ", "***", "* * *", "---", "- - -", "___", "_ _ _", "---  ")
			type ctx struct{ before, after string }
			c := core.PickOf(g, []ctx{{"", ""}, {"a\n\n", "\n\nb"}, {"* a\n\n", "\n\n* b"}, {"====\n", "\n\n===="}, {"====\na\n\n", "\n\nb\n===="}, {"|===\na|a\n\n", "\n\nb\n|==="}, {"----\na\n----\n", "\n\n----\na\n----"}, {"== S\n\n", "\n\n== T"}, {"= T\n\n", "\n\n== T"}, {"//c\n", "\n\n//c"}, {":a: b\n\n", "\n\n:c: d\n\na"}, {"'''\n\n", "\n\n'''"}, {"****\n", "\n\n***\n\n****"}, {"[[a]]\n== A\n\n* a\n** b\n\n", "\n\na:: b"}, {"image::a.png[]\n\n", "\n\nNOTE: a"}, {"____\n", "\n\n____"}, {"....\na\n....\n\n", "\n\n  a"}, {"a\n+\n\n", "\n\nb"}})
			if strings.Contains(b, " ") && strings.Contains("\n"+c.before, "\n* ") {
				return g.Skip() // (an item of the list)
			}
			src := c.before + b + c.after + "\n"
			rest := c.before + "((((HR))))" + c.after + "\n"
			n := strings.Count(c.before+c.after, "'''") + strings.Count(strings.ReplaceAll(c.before+c.after, "****", ""), "***")
			return &core.Case{Desc: fmt.Sprintf("%q", src), Check: func(r *core.Run) error {
				out, _, err := lib.Convert(src, lib.Opts{})
				if err != nil {
					return err
				}
				r.Outcome(out)
				want, _, err := lib.Convert(strings.ReplaceAll(rest, "((((HR))))", "zzzz"), lib.Opts{})
				if err != nil {
					return err
				}
				want = strings.Replace(want, "<div class=\"paragraph\">\n<p>zzzz</p>\n</div>", "<hr>", 1)
				if out != want || strings.Count(out, "<hr>") != n+1 {
					return fmt.Errorf("- %d breaks expected in\n- %s\n+ got\n+ %s", n+1, want, out)
				}
				return nil
			}}
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C39", Title: "Buttons, menus, index terms and thematic breaks", Families: c39Families,
		Bounds: "all sequences of up to 5 (thorough: 7) declarations, unsettings, paragraphs, lists and blocks with macros, with and without the attribute in the configuration or the header; all buttons with 28 labels, menus with up to 2 (thorough: 3) items, index terms with 24 contents, concealed terms, between 14 texts before and 15 after; all of them in 18 places; 9 notations of breaks in 18 contexts",
	})
}
