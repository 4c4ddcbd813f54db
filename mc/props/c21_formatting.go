package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// a form of formatted text
type textForm struct {
	open, close         string
	htmlOpen, htmlClose string
	anywhere            bool // (unconstrained)
	word                bool // (subscript and superscript: without spaces)
}

var textForms = []textForm{
	{"*", "*", "<strong>", "</strong>", false, false},
	{"_", "_", "<em>", "</em>", false, false},
	{"`", "`", "<code>", "</code>", false, false},
	{"#", "#", "<mark>", "</mark>", false, false},
	{"**", "**", "<strong>", "</strong>", true, false},
	{"__", "__", "<em>", "</em>", true, false},
	{"``", "``", "<code>", "</code>", true, false},
	{"##", "##", "<mark>", "</mark>", true, false},
	{"~", "~", "<sub>", "</sub>", true, true},
	{"^", "^", "<sup>", "</sup>", true, true},
}

var quoteForms = []textForm{
	{"\"`", "`\"", "&#8220;", "&#8221;", true, false},
	{"'`", "`'", "&#8216;", "&#8217;", true, false},
}

func (f textForm) of(src, html string) (string, string) {
	return f.open + src + f.close, f.htmlOpen + html + f.htmlClose
}

// the form with a role or an id
func (f textForm) with(attrs string) (string, string, string) {
	open, end := f.htmlOpen, f.htmlClose
	if f.open[0] == '#' && strings.Contains(attrs, "class") {
		open, end = "<span>", "</span>" // (highlighted without a role)
	}
	return open[:len(open)-1] + attrs + ">", end, f.open
}

// formattingCase: the text becomes the HTML, in the given place.
func formattingCase(place linkPlace, text, html string) *core.Case {
	return linkCase(place, text, html, map[string]interface{}{"x": "value"})
}

type pair struct{ src, html string }

func plain(list ...string) []pair {
	result := make([]pair, len(list))
	for i, s := range list {
		result[i] = pair{s, strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)}
	}
	return result
}

var (
	openBefore   = plain("", "x ", "(", "x-", "x/", "\"", "z x. ", "x\n", "[", "x=", "<", "&", "…", "«"[:0]+"“", "—", "x (", "x,", "x!", "x?", "x.", "é ", "|"[:0]+"$", "% ", "@", "x\\ "[:2], "x\u00a0")
	symbolBefore = []pair{{"x...", "x&#8230;&#8203;"}, {"x(C)", "x&#169;"}, {"x->", "x&#8594;"}, {"x\\...", "x..."}, {"x {x}-", "x value-"}, {"x http://a.b[c]", `x <a href="http://a.b">c</a>`}}
	closedBefore = plain("x", "1", "é", "ß", "日", "x;", "x y", "ñ", "З")
	openAfter    = plain("", " y", ".", ",", ")", ";", ":", "!", "?", "-y", "/y", "\ny", "\"", ">", "…", "—", "]", " é", "=", "\u00a0y", "}")
	closedAfter  = plain("y", "1", "é", "日", "ß", "З")
	spanContents = []pair{{"b", "b"}, {"b c", "b c"}, {"é", "é"}, {"b-c", "b-c"}, {"b.", "b."}, {"(b)", "(b)"}, {"1", "1"}, {"b & c", "b &amp; c"}, {"b's", "b&#8217;s"}, {"b\nc", "b\nc"}, {"{x}", "value"}, {"b {x}", "b value"}, {"b\\", "b\\"}, {"b, c: d; e", "b, c: d; e"}, {"b  c", "b  c"}, {"\"b\"", "\"b\""}, {"b...", "b&#8230;&#8203;"}, {"<b>", "&lt;b&gt;"}, {"http://a.b[c]", `<a href="http://a.b">c</a>`}, {"日本", "日本"}}
)

// formatted text of the given depth, whose marks are not any of the used ones; after is the character before it
func formattedText(g *core.Gen, depth int, used string, glued bool, noSpace bool) (string, string, bool) {
	forms := []textForm{}
	for _, f := range append(append([]textForm{}, textForms...), quoteForms...) {
		if strings.ContainsAny(used, f.open[:1]) || glued && !f.anywhere || glued && strings.Contains(f.open, "\"") || glued && f.open[0] == '\'' {
			continue
		}
		if f.open[0] == '"' || f.open[0] == '\'' {
			if strings.Contains(used, "`") || strings.Contains(used, "'") || strings.Contains(used, "\"") {
				continue
			}
		}
		forms = append(forms, f)
	}
	if len(forms) == 0 {
		return "", "", false
	}
	f := core.PickOf(g, forms)
	used += f.open[:1]
	if f.open[0] == '"' || f.open[0] == '\'' {
		used += "`"
	}
	if f.word || depth <= 1 {
		content := g.Pick("b", "b c")
		if strings.Contains(content, " ") && (f.word || noSpace) {
			return "", "", false
		}
		src, html := f.of(content, content)
		return src, html, true
	}
	shape := g.Pick("«", "b «", "« b", "b « c", "b-«-c", "b«c")
	if noSpace && strings.Contains(shape, " ") {
		return "", "", false
	}
	src, html, ok := formattedText(g, depth-1, used, shape == "b«c", noSpace)
	if !ok {
		return "", "", false
	}
	src, html = f.of(strings.ReplaceAll(shape, "«", src), strings.ReplaceAll(shape, "«", html))
	return src, html, true
}

func c21Families(tier string) []core.Family {
	thorough := tier == "thorough"
	return []core.Family{
		{Name: "boundaries", Gen: func(g *core.Gen) *core.Case {
			f := core.PickOf(g, textForms)
			b := core.PickOf(g, append(append(append([]pair{}, openBefore...), symbolBefore...), closedBefore...))
			a := core.PickOf(g, append(append([]pair{}, openAfter...), closedAfter...))
			contents := spanContents
			if !thorough {
				contents = spanContents[:10]
			}
			c := core.PickOf(g, contents)
			if f.word && strings.ContainsAny(c.src, " \n{'[") {
				return g.Skip()
			}
			if f.open[0] == '`' && (strings.HasSuffix(b.src, "\"") || strings.HasPrefix(a.src, "\"") || strings.HasPrefix(c.src, "\"")) {
				return g.Skip() // (quotation marks)
			}
			if strings.HasSuffix(b.src, "\\") || strings.HasPrefix(b.src, "[") && strings.HasPrefix(a.src, "]") || strings.HasSuffix(c.src, "\\") && strings.HasPrefix(a.src, "\n") {
				return g.Skip() // (escapes and ids)
			}
			if f.open == "^" && b.src == "[" || f.word && (strings.HasPrefix(c.src, "<") || strings.HasSuffix(c.src, "...")) {
				return g.Skip()
			}
			formatted := f.anywhere
			if !formatted {
				formatted = true
				for _, x := range closedBefore {
					formatted = formatted && x != b
				}
				for _, x := range closedAfter {
					formatted = formatted && x != a
				}
			}
			src, html := f.of(c.src, c.html)
			if !formatted {
				html = f.open + c.html + f.close
			}
			return formattingCase(linkPlaces[0], b.src+src+a.src, b.html+html+a.html)
		}},
		{Name: "nesting", Gen: func(g *core.Gen) *core.Case {
			b := g.Pick("", "x ", "x")
			a := g.Pick("", " y", "y")
			depth := 2
			if b == "" && a == "" || thorough {
				depth = 3
			}
			src, html, ok := formattedText(g, depth, "", b+a != "" && strings.TrimSpace(b+a) == b+a, false)
			if !ok {
				return g.Skip()
			}
			return formattingCase(linkPlaces[0], b+src+a, b+html+a)
		}},
		{Name: "sequences", Gen: func(g *core.Gen) *core.Case {
			atoms := []pair{
				{"a", "a"}, {"*b*", "<strong>b</strong>"}, {"_c_", "<em>c</em>"}, {"`d`", "<code>d</code>"}, {"#e#", "<mark>e</mark>"}, {"**f**g", "<strong>f</strong>g"}, {"h__i__", "h<em>i</em>"}, {"j~k~", "j<sub>k</sub>"}, {"l^m^", "l<sup>m</sup>"},
				{"*", "*"}, {"_", "_"}, {"a*b", "a*b"}, {"c_d", "c_d"}, {"e#f", "e#f"}, {"g`h", "g`h"}, {"\\*a*", "*a*"}, {"\\_b_", "_b_"}, {"\\`c`", "`c`"}, {"\\#d#", "#d#"}, {"\\~e~", "~e~"},
				{"\"`a`\"", "&#8220;a&#8221;"}, {"'`b`'", "&#8216;b&#8217;"}, {"[.r]*c*", `<strong class="r">c</strong>`}, {"[#i]_d_", `<em id="i">d</em>`}, {"[.r]#e#", `<span class="r">e</span>`}, {"[f]", "[f]"},
				{"http://a.b[*c*]", `<a href="http://a.b"><strong>c</strong></a>`}, {"{x}", "value"}, {"a's", "a&#8217;s"}, {"(C)", "&#169;"}, {"&", "&amp;"}, {"+*a*+", "*a*"}, {"`+_b_+`", "<code>_b_</code>"}, {"_*c* d_", "<em><strong>c</strong> d</em>"}, {"*e _f_*", "<strong>e <em>f</em></strong>"}, {"<<a,_b_>>", `<a href="#a"><em>b</em></a>`}, {"*a\nb*", "<strong>a\nb</strong>"}, {"é", "é"}, {"a*", "a*"}, {"b_", "b_"},
			}
			n := 2
			if thorough {
				n = 3
			}
			src, html := "", ""
			for i := 0; i < n; i++ {
				x := core.PickOf(g, atoms)
				if i > 0 {
					sep := g.Pick(" ", "\n", "-", ", ", " (", "/")
					if i > 1 {
						sep = " "
					}
					if sep != " " && (len(x.src) == 1 && strings.ContainsAny(x.src, "*_") || strings.HasSuffix(src, "a*") || strings.HasSuffix(src, "b_") || src == "*" || src == "_" || strings.HasSuffix(src, " *") || strings.HasSuffix(src, " _")) {
						return g.Skip()
					}
					if sep != " " && sep != "\n" && strings.Contains(src, "\"`") {
						return g.Skip()
					}
					src += sep
					html += sep
				}
				src += x.src
				html += x.html
			}
			if strings.HasPrefix(src, "* ") || strings.Contains(src, "\n* ") || src == "_ _ _" || strings.HasPrefix(src, "[f]\n") || strings.Contains(src+"\n", "\n[f]\n") {
				return g.Skip() // (a list)
			}
			return formattingCase(linkPlaces[0], src, html)
		}},
		{Name: "attributes", Gen: func(g *core.Gen) *core.Case {
			f := core.PickOf(g, textForms)
			attrs := core.PickOf(g, []pair{{".r", ` class="r"`}, {".r.s", ` class="r s"`}, {"#i", ` id="i"`}, {"#i.r", ` id="i" class="r"`}, {"#i.r.s", ` id="i" class="r s"`}, {".r#i", ` id="i" class="r"`}, {"role=r", ` class="r"`}, {".big-b", ` class="big-b"`}, {".b_c", ` class="b_c"`}, {"r", ` class="r"`}, {"role=\"r s\"", ` class="r s"`}, {"id=i", ` id="i"`}, {"id=i,role=r", ` id="i" class="r"`}, {".{x}", ` class="value"`}, {".é", ` class="é"`}, {".r1.r2.r3", ` class="r1 r2 r3"`}})
			c := g.Pick("b", "b c", "b *c* d", "b _c_", "[.t]#c# d", "[.t]_c_")
			if strings.ContainsAny(c, f.open[:1]) || f.word && strings.ContainsAny(c, " []") {
				return g.Skip()
			}
			b := core.PickOf(g, plain("", "x ", "(", "x-"))
			a := core.PickOf(g, plain("", " y", ".", ")"))
			html := c
			for _, r := range [][2]string{{"*c*", "<strong>c</strong>"}, {"[.t]#c#", `<span class="t">c</span>`}, {"[.t]_c_", `<em class="t">c</em>`}, {"_c_", "<em>c</em>"}} {
				html = strings.ReplaceAll(html, r[0], r[1])
			}
			open, end, _ := f.with(attrs.html)
			return formattingCase(linkPlaces[0], b.src+"["+attrs.src+"]"+f.open+c+f.close+a.src, b.html+open+html+end+a.html)
		}},
		{Name: "escapes", Gen: func(g *core.Gen) *core.Case {
			f := core.PickOf(g, textForms)
			b := core.PickOf(g, plain("", "x ", "(", "x", "x-"))
			a := core.PickOf(g, plain("", " y", ".", "y"))
			c := core.PickOf(g, []pair{{"b", "b"}, {"b c", "b c"}, {"b *c* d", "b <strong>c</strong> d"}, {"b _c_", "b <em>c</em>"}, {"`c`", "<code>c</code>"}, {"b & c", "b &amp; c"}, {"b's", "b&#8217;s"}, {"{x}", "value"}, {"b [.r]#c#", `b <span class="r">c</span>`}, {"b\nc", "b\nc"}})
			if strings.ContainsAny(c.src, f.open[:1]) || f.word && strings.ContainsAny(c.src, " []\n{'") {
				return g.Skip()
			}
			if !f.anywhere && (a.src == "y" || b.src == "x") {
				return g.Skip() // (no formatted text to escape)
			}
			if strings.HasPrefix(c.src, "`") && !strings.Contains(f.open, f.open[:1]) {
				return g.Skip()
			}
			escape := "\\"
			if len(f.open) == 2 {
				escape = "\\\\"
			}
			more := g.Pick("", "\\", "\\\\") // (further backslashes are text)
			attrs := g.Pick("", "[.r]")
			if attrs != "" && more != "" {
				return g.Skip()
			}
			if attrs != "" && (len(f.open) == 2 || f.word) {
				return g.Skip()
			}
			return formattingCase(linkPlaces[0], b.src+attrs+more+escape+f.open+c.src+f.close+a.src, b.html+attrs+more+f.open+c.html+f.close+a.html)
		}},
		{Name: "unmatched", Gen: func(g *core.Gen) *core.Case {
			m := g.Pick("*", "_", "`", "#", "~", "^")
			t := g.Pick("b", "b c", "é", "1")
			s := g.Pick("«x", "x«", "« x «", "«x «", "« x«", "y « x", "y «\nx« z", "y «x\n« z", "y «x\t« z", "y «\tx« z", "y «x z", "y x« z", "y«x", "y « x « z", "y«x«z", "y «x«z", "y (« x)", "y « x « z « w", "\\« x", "\\«x", "y \\« x «")
			if (m == "~" || m == "^") && strings.Contains(s, "«x«") || strings.HasPrefix(s, "« ") && m == "*" || (strings.HasPrefix(s, "«") || strings.HasPrefix(s, "« x")) && m == "#" {
				return g.Skip()
			}
			text := strings.ReplaceAll(strings.ReplaceAll(s, "x", t), "«", m)
			rest := core.PickOf(g, []pair{{"", ""}, {" -- *f*", ""}, {" and *f*", " and <strong>f</strong>"}, {" and __f__.", " and <em>f</em>."}, {"\n\n«f", ""}})
			if rest.src != "" && rest.html == "" && rest.src[0] == ' ' || strings.Contains(rest.src, m) {
				return g.Skip()
			}
			if strings.HasPrefix(rest.src, "\n") {
				// a paragraph does not close what another one opens
				return formattingCase(linkPlace{"«", "«"}, text+"\n\ng"+m+" f\n", "<p>"+text+"</p>\n</div>\n<div class=\"paragraph\">\n<p>g"+m+" f</p>")
			}
			return formattingCase(linkPlaces[0], text+rest.src, text+rest.html)
		}},
		{Name: "separate", Gen: func(g *core.Gen) *core.Case {
			// a mark in a part of the document does not close what another part opens
			m := g.Pick("*", "_", "`", "#", "**", "__", "``", "##", "~", "^")
			p := core.PickOf(g, [][2]string{
				{"a «b\n\nc» d\n", "<p>a «b</p>§<p>c» d</p>"},
				{"* a «b\n* c» d\n", "<p>a «b</p>§<p>c» d</p>"},
				{". a «b\n.. c» d\n", "<p>a «b</p>§<p>c» d</p>"},
				{"a «b:: c» d\n", ">a «b</dt>§<p>c» d</p>"},
				{"a:: b «c\nd:: e» f\n", "<p>b «c</p>§<p>e» f</p>"},
				{"|===\n|a «b |c» d\n|===\n", "\">a «b</p>§\">c» d</p>"},
				{".a «b\n====\nc» d\n====\n", "a «b</div>§<p>c» d</p>"},
				{"== a «b\n\nc» d\n", "a «b</h2>§<p>c» d</p>"},
				{"a «b\n----\nc» d\n----\n", "<p>a «b</p>§<pre>c» d</pre>"},
				{"____\na «b\n____\n\nc» d\n", "<p>a «b</p>§<p>c» d</p>"},
				{"NOTE: a «b\n\nc» d\n", "a «b\n</td>§<p>c» d</p>"},
				{"[quote, a «b]\nc» d\n", "<blockquote>\nc» d\n</blockquote>"},
				{"a «b footnote:[c» d]\n", ""},
				{"a «b http://c.d[e» f]\n", ""},
				{"----\na <1>\nb <2>\n----\n<1> a «b\n<2> c» d\n", "<p>a «b</p>§<p>c» d</p>"},
				{"* a «b\n+\nc» d\n", "<p>a «b</p>§<p>c» d</p>"},
				{"[%hardbreaks]\na b\nc d «e\n\nf» g\n", "c d «e</p>§<p>f» g</p>"},
				{"a «b // c\n// d» e\nf\n", "<p>a «b // c\nf</p>"},
				{"a «b\n:z: c» d\n", ""},
			})
			if p[1] == "" {
				return g.Skip()
			}
			r := strings.NewReplacer("«", m, "»", m)
			src := r.Replace(p[0])
			return &core.Case{Desc: fmt.Sprintf("%q", src), Check: func(run *core.Run) error {
				out, _, err := lib.Convert(src, lib.Opts{})
				if err != nil {
					return err
				}
				run.Outcome(out)
				for _, w := range strings.Split(p[1], "§") {
					w = r.Replace(w)
					if !strings.Contains(out, w) {
						return fmt.Errorf("no %s in %s", w, out)
					}
				}
				return nil
			}}
		}},
		{Name: "places", Gen: func(g *core.Gen) *core.Case {
			p := core.PickOf(g, linkPlaces)
			t := core.PickOf(g, []pair{
				{"*b*", "<strong>b</strong>"}, {"_b_", "<em>b</em>"}, {"`b`", "<code>b</code>"}, {"#b#", "<mark>b</mark>"}, {"z**b**z", "z<strong>b</strong>z"}, {"z__b__z", "z<em>b</em>z"}, {"z``b``z", "z<code>b</code>z"}, {"z##b##z", "z<mark>b</mark>z"}, {"z~b~", "z<sub>b</sub>"}, {"z^b^", "z<sup>b</sup>"},
				{"[.r]#b c#", `<span class="r">b c</span>`}, {"_b `c` d_ e", "<em>b <code>c</code> d</em> e"}, {"*b `c` d* e", "<strong>b <code>c</code> d</strong> e"}, {"z*b*z", "z*b*z"}, {"z_b_z", "z_b_z"}, {"z `b", "z `b"}, {"\\_b_", "_b_"}, {"\\*b*", "*b*"}, {"z *b", "z *b"}, {"z # b", "z # b"}, {"\"`b`\"", "&#8220;b&#8221;"}, {"'`b`'", "&#8216;b&#8217;"}, {"[#i]`b`", `<code id="i">b</code>`}, {"_b *c*_, #d#", "<em>b <strong>c</strong></em>, <mark>d</mark>"}, {"*b* *c*", "<strong>b</strong> <strong>c</strong>"}, {"_b_-`c`", "<em>b</em>-<code>c</code>"},
			})
			if strings.Contains(p.src, "subs=") || (strings.HasPrefix(p.src, "*«") || strings.HasPrefix(p.src, "_a «")) && strings.Contains(t.src, p.src[:1]) {
				return g.Skip()
			}
			if strings.Contains(p.src, "footnote") && strings.Contains(t.src, "[") {
				return g.Skip() // (ends at the first bracket)
			}
			return formattingCase(p, t.src, t.html)
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C21", Title: "Text within marks is formatted, marks elsewhere are text", Families: c21Families,
		Bounds:      "10 forms of formatted text (20 contents in the thorough tier, 10 otherwise) with all pairs of what is before (34) and after (27); all nestings of different forms down to 3 levels in 6 shapes; all pairs (thorough: triples) of 40 texts with 6 separators; 16 lists of attributes with 10 forms, 6 contents and 16 contexts; 10 escaped contents of 10 forms in 20 contexts; 17 arrangements of unmatched marks of 6 kinds with what follows; 10 marks in 17 pairs of parts of a document; 26 texts in 20 places",
		Assumptions: []string{"marks after : ; or }, formatted text within itself, overlapping marks, single curved quotes and underscores after formatted text are not looked at (not specified)", "marked text without a role is highlighted, even with an id"},
	})
}
