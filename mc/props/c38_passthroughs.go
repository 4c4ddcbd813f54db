package props

import (
	"strings"

	"verif/mc/core"
)

// passForms: the forms of passthroughs, and whether their content is escaped
var passForms = []struct {
	before, after   string
	escaped, single bool
}{
	{"+", "+", true, true}, {"+++", "+++", false, false}, {"pass:[", "]", false, false}, {"pass:q[", "]", false, false},
}

var passContents = []string{
	"a", "<b>", "a & b", "*a*", "x _a_ y", "`a`", "{x}", "http://a.b/c", "-> =>", "(C)", "a'b", "<<i>>", "((a))", "a  b", "é世", "image:a.png", "\"a\"", "\\*a*", "a--b", "link:c", "</div>", "a.b@c.de", "\"`a`\"", "#a#", "x*a*y", "x*a*, _b_", "~a~", "^a^", "[[i]]", "{nope}", "\\{x}", "a<1>", "...", "|", "::", "m:a", "a]b", "&amp;", "&#169;", "x&lt;y",
	" a ", " ", "",
}

// passHTML is what the passthrough shows
func passHTML(f int, content string) (string, bool) {
	p := passForms[f]
	switch {
	case p.single && (content == "" || strings.HasPrefix(content, " ") || strings.HasSuffix(content, " ")):
		return "", false
	case strings.HasPrefix(p.before, "pass:") && strings.Contains(content, "]"):
		return "", false
	case p.before == "pass:q[":
		for _, s := range []string{"\\", "`\"", "~", "^"} {
			if strings.Contains(content, s) { // (sub- and superscripts, curved quotes: see the formatting of text)
				return "", false
			}
		}
		return strings.NewReplacer("x*a*", "x*a*", "*a*", "<strong>a</strong>", "_a_", "<em>a</em>", "_b_", "<em>b</em>", "`a`", "<code>a</code>", "#a#", "<mark>a</mark>").Replace(content), true
	case p.escaped:
		return escapeHTML(content), true
	}
	return content, true
}

func c38Families(tier string) []core.Family {
	thorough := tier == "thorough"
	before := []string{"", "x ", "x", "é", "1", ":", "(", "*b*", "x\n", "{x}", "\"", "x,", "<", "*", "_", "+ "}
	after := []string{"", " y", "y", ".", ",", "1", ")", "*b*", "\ny", "{x}", "\"", "é", ">", "*", "_", " + y"}
	around := strings.NewReplacer("{x}", "value", "<", "&lt;", ">", "&gt;", "*b*", "<strong>b</strong>")
	isWordEnd := func(s string) bool {
		r := []rune(s)
		return len(r) > 0 && isWord(r[len(r)-1])
	}
	isWordStart := func(s string) bool {
		r := []rune(s)
		return len(r) > 0 && isWord(r[0])
	}
	// one is a passthrough between texts. It reports what is shown, and whether it is in the scope of the property.
	one := func(f int, content, b, a string) (string, string, bool) {
		p := passForms[f]
		text := b + p.before + content + p.after + a
		html, ok := passHTML(f, content)
		if !ok {
			return "", "", false
		}
		if p.single && (isWordEnd(b) || isWordStart(a)) {
			// not a passthrough, but text
			switch content {
			case "a", "é世", "|", "::", "m:a", "a]b", "link:c", "image:a.png", "a  b":
				html = "+" + content + "+"
			case "<b>", "a & b", "</div>":
				html = "+" + escapeHTML(content) + "+"
			case "{x}":
				html = "+value+"
			case "*a*":
				html = "+<strong>a</strong>+"
			default:
				return "", "", false
			}
		}
		if content == "a.b@c.de" && p.before == "+++" && isWordEnd(b) { // (an address with plus signs)
			return "", "", false
		}
		if strings.HasPrefix(p.before, "pass:") && (isWordEnd(b) || strings.HasSuffix(b, "b*")) { // (part of a word)
			return "", "", false
		}
		return text, around.Replace(b) + "\x01" + around.Replace(a) + "\x02" + html, true
	}
	fill := func(h string) string {
		i := strings.Index(h, "\x02")
		return strings.Replace(h[:i], "\x01", h[i+1:], 1)
	}
	return []core.Family{
		{Name: "forms", Gen: func(g *core.Gen) *core.Case {
			f := g.Choose(len(passForms))
			c := core.PickOf(g, passContents)
			b, a := core.PickOf(g, before), core.PickOf(g, after)
			if b == "*" && a != "*" || a == "*" && b != "*" || b == "_" && a != "_" || a == "_" && b != "_" {
				return g.Skip()
			}
			text, html, ok := one(f, c, b, a)
			if !ok || strings.TrimSpace(c) == "" && (b == "x\n" || b == "" || a == "" || a == "\ny") {
				return g.Skip()
			}
			html = fill(html)
			if b == "*" {
				html = "<strong>" + strings.Trim(html, "*") + "</strong>"
				if strings.Contains(c, "*") {
					return g.Skip()
				}
			}
			if b == "_" {
				html = "<em>" + strings.Trim(html, "_") + "</em>"
				if strings.Contains(c, "_") {
					return g.Skip()
				}
			}
			return c37Case(text+"\n", text, "<p>"+html+"</p>")
		}},
		{Name: "pairs", Gen: func(g *core.Gen) *core.Case {
			n := 2
			contents := []string{"a", "<b>", "*a*", "{x}", "a & b"}
			if thorough {
				n = 3
			}
			text, html := "", ""
			for i := 0; i < n; i++ {
				f := g.Choose(len(passForms))
				c := core.PickOf(g, contents)
				sep := g.Pick(" ", ", ", " x ", "-", "\n", " + ", " *b* ")
				if i == n-1 {
					sep = ""
				}
				t, h, ok := one(f, c, "", sep)
				if !ok {
					return g.Skip()
				}
				text += t
				html += fill(h)
			}
			return c37Case(text+"\n", text, "<p>"+html+"</p>")
		}},
		{Name: "places", Gen: func(g *core.Gen) *core.Case {
			p := core.PickOf(g, linkPlaces)
			f := g.Choose(len(passForms))
			c := core.PickOf(g, passContents)
			text, html, ok := one(f, c, "x ", g.Pick("", " y", ". y"))
			if !ok || strings.Contains(p.src, "subs=") || strings.HasPrefix(p.src, ".") && strings.Contains(c, "{") || strings.TrimSpace(c) != c || c == "" {
				return g.Skip()
			}
			if strings.Contains(c, "|") && strings.Contains(p.src, "|===") || strings.Contains(c, "::") && strings.Contains(p.src, "::") || strings.Contains(c+text, "]") && strings.Contains(p.src, "[«") {
				return g.Skip()
			}
			return c37Case(strings.ReplaceAll(p.src, "«", text), text, strings.ReplaceAll(p.html, "«", fill(html)))
		}},
		{Name: "text", Gen: func(g *core.Gen) *core.Case {
			// plus signs which are text
			n := 4
			if thorough {
				n = 5
			}
			text := g.Pick("a", "1", "(", "é")
			for i := 0; i < n; i++ {
				text += g.Pick("+", "a", " ", "1", "é", "*b*", "&")
			}
			text += g.Pick("a", "1")
			if strings.Contains(text, "++") || strings.Count(text, "+") == 0 {
				return g.Skip()
			}
			// a passthrough: + after no word, something else than a space, and + before no word
			rs := []rune(text)
			for i, r := range rs {
				if r != '+' || i > 0 && isWord(rs[i-1]) || i+1 < len(rs) && rs[i+1] == ' ' {
					continue
				}
				for j := i + 2; j < len(rs); j++ {
					if rs[j] == '+' {
						return g.Skip()
					}
				}
			}
			if strings.Contains(strings.ReplaceAll(text, "*b*", ""), "*") {
				return g.Skip()
			}
			for _, s := range []string{"a*b*", "1*b*", "é*b*", "*b*a", "*b*1", "*b*é", "*b**"} {
				if strings.Contains(text, s) {
					return g.Skip()
				}
			}
			return c37Case(text+"\n", text, "<p>"+strings.NewReplacer("*b*", "<strong>b</strong>", "&", "&amp;").Replace(text)+"</p>")
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C38", Title: "Passthroughs keep their content, and other plus signs are text", Families: c38Families,
		Bounds: "the 4 forms of passthroughs x 43 contents x 16 texts before x 16 texts after; all pairs (thorough: triples) of passthroughs with 5 contents and 7 separations; all forms and contents in 19 places; all texts of 4 (thorough: 5) characters among 7 with plus signs which delimit nothing",
	})
}
