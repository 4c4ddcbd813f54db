package props

import (
	"fmt"
	"strings"
	"unicode"

	"verif/mc/core"
	"verif/mc/lib"
)

var typographic = []struct{ src, html string }{
	{"(C)", "&#169;"}, {"(R)", "&#174;"}, {"(TM)", "&#8482;"}, {"...", "&#8230;&#8203;"}, {"->", "&#8594;"}, {"<-", "&#8592;"}, {"=>", "&#8658;"}, {"<=", "&#8656;"}, {"--", ""}, {"'", ""},
}

func isWord(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) }

// typeset replaces the typographic shorthands. It reports whether the text is in the scope of the property.
func typeset(text string) (string, bool) {
	out := ""
	rs := []rune(text)
	has := func(i int, s string) bool { return strings.HasPrefix(string(rs[i:]), s) }
	// the shorthand at that position, and its replacement
	at := func(i int, prev rune) (string, string, bool) {
		for _, s := range typographic {
			if !has(i, s.src) {
				continue
			}
			n := len([]rune(s.src))
			var next rune
			if i+n < len(rs) {
				next = rs[i+n]
			}
			switch s.src {
			case "'":
				if isWord(prev) && unicode.IsLetter(next) {
					return s.src, "&#8217;", true
				}
				return "", "", true
			case "--":
				switch {
				case prev == 0 || prev == '\n': // (at the beginning of a line)
					return "", "", false
				case prev == ' ' && (next == ' ' || next == '\n' || next == 0):
					if next == ' ' {
						return "-- ", "&#8201;&#8212;&#8201;", true
					}
					return s.src, "&#8201;&#8212;&#8201;", true
				case isWord(prev) && isWord(next):
					return s.src, "&#8212;&#8203;", true
				case isWord(prev) && (next == '\n' || next == 0): // (at the end of a line)
					return "", "", false
				}
				if has(i, "-->") {
					return "", "", true
				}
				return "", "", true
			}
			return s.src, s.html, true
		}
		return "", "", true
	}
	for i := 0; i < len(rs); {
		var prev rune
		if i > 0 {
			prev = rs[i-1]
		}
		if rs[i] == '\\' && i+1 < len(rs) {
			s, html, ok := at(i+1, prev)
			if !ok {
				return "", false
			}
			if html != "" {
				s = strings.TrimSuffix(s, " ")
				if s == "'" && !isWord(prev) {
					return "", false
				}
				if s == "--" && prev == ' ' { // (whether the backslash is a separator)
					return "", false
				}
				out += escapeHTML(s)
				i += 1 + len([]rune(s))
				continue
			}
		} else {
			s, html, ok := at(i, prev)
			if !ok {
				return "", false
			}
			if html != "" {
				if strings.HasPrefix(html, "&#8201;&#8212;") {
					out = strings.TrimSuffix(out, " ")
				}
				out += html
				i += len([]rune(s))
				continue
			}
		}
		if rs[i] == '\\' && i+1 < len(rs) && rs[i+1] == '\'' { // (whether it is needed)
			return "", false
		}
		out += escapeHTML(string(rs[i]))
		i++
	}
	return out, true
}

func c37Case(src, text, want string) *core.Case {
	return &core.Case{
		Desc: fmt.Sprintf("%q", src),
		Check: func(r *core.Run) error {
			out, _, err := lib.Convert(src, lib.Opts{Attrs: map[string]interface{}{"x": "value"}})
			if err != nil {
				return err
			}
			r.Outcome(out)
			out = strings.NewReplacer("&#39;", "'", "&#34;", `"`).Replace(out)
			if !strings.Contains(out, want) {
				return fmt.Errorf("no %s in %s", want, out)
			}
			return nil
		},
	}
}

func c37Families(tier string) []core.Family {
	thorough := tier == "thorough"
	seps := []string{"a", " ", "é", "1", ".", "\n", "(", "b c", "*d*", "世", "-", "&", "{x}"}
	sym := func(g *core.Gen) string {
		s := core.PickOf(g, typographic).src
		if g.Bool() {
			s = `\` + s
		}
		return s
	}
	// replaced reports the text with formatted text and references
	set := func(text string) (string, bool) {
		html, ok := typeset(strings.NewReplacer("*d*", "\x01", "{x}", "value").Replace(text))
		return strings.ReplaceAll(html, "\x01", "<strong>d</strong>"), ok
	}
	return []core.Family{
		{Name: "text", Gen: func(g *core.Gen) *core.Case {
			n := 2
			if thorough {
				n = 3
			}
			text := g.Pick("x", "x ")
			for i := 0; i < n; i++ {
				text += sym(g) + core.PickOf(g, seps)
			}
			text += "y"
			for _, s := range []string{"\\\\", "-->", "<--", "<->", "<=>", "=>>", "\n(", "---", "- --", "\n-", "\n.", "\n'", "\n\\"} {
				if strings.Contains(text, s) {
					return g.Skip()
				}
			}
			html, ok := set(text)
			if !ok || strings.Contains(text, "*d*") && strings.Contains(text, "*d*y") {
				return g.Skip()
			}
			for _, s := range []string{"*d*1", "1*d*", "*d*a", "a*d*", "é*d*"} {
				if strings.Contains(text, s) {
					return g.Skip()
				}
			}
			return c37Case(text+"\n", text, "<p>"+html+"</p>")
		}},
		{Name: "places", Gen: func(g *core.Gen) *core.Case {
			p := core.PickOf(g, linkPlaces)
			text := g.Pick("x", "x ") + sym(g) + g.Pick("y", " y", "1", ". y")
			if strings.Contains(p.src, "subs=macros") {
				return c37Case(strings.ReplaceAll(p.src, "«", text), text, strings.ReplaceAll(p.html, "«", text)) // (no replacement)
			}
			html, ok := typeset(text)
			if !ok {
				return g.Skip()
			}
			return c37Case(strings.ReplaceAll(p.src, "«", text), text, strings.ReplaceAll(p.html, "«", html))
		}},
		{Name: "verbatim", Gen: func(g *core.Gen) *core.Case {
			// nothing is replaced, and the backslashes are kept
			text := g.Pick("x", "x ") + sym(g) + g.Pick("y", " y", " ") + sym(g) + g.Pick("y", " y", "1", ". y")
			p := core.PickOf(g, [][2]string{{"----\n«\n----\n", "<pre>«</pre>"}, {"....\n«\n....\n", "<pre>«</pre>"}, {"```\n«\n```\n", "«</code></pre>"}, {" «\n", "<pre>«</pre>"}, {"[source]\n----\n«\n----\n", "<code>«</code>"}, {"[listing]\n«\n", "<pre>«</pre>"},
				{"a +++<i>«</i>+++ b\n", "<p>a <i>«</i> b</p>"}, {"a +«+ b\n", "<p>a « b</p>"}, {"a `+«+` b\n", "<p>a <code>«</code> b</p>"}, {"|===\nl|«\n|===\n", "<pre>«</pre>"}})
			if strings.HasPrefix(p[0], "|") {
				return g.Skip()
			}
			html := escapeHTML(text)
			if strings.Contains(p[0], "<i>") {
				html = text
			}
			return c37Case(strings.ReplaceAll(p[0], "«", text), text, strings.ReplaceAll(p[1], "«", html))
		}},
		{Name: "breaks", Gen: func(g *core.Gen) *core.Case {
			// lines which end with a +, all lines with the option or the attribute
			mode := g.Choose(5)
			n := 2 + g.Choose(2)
			if thorough {
				n = 2 + g.Choose(3)
			}
			src, html := "", ""
			for i := 0; i < n; i++ {
				w := g.Pick("a", "*a*", "a + b", "a {x}", "C++", "a +", "*a*+")
				h := strings.NewReplacer("*a*", "<strong>a</strong>", "{x}", "value").Replace(w)
				end := g.Pick("", " +", "+", " ++")
				src += w + end
				if strings.HasSuffix(w, "+") && end != " +" {
					return g.Skip() // (the signs are all at the end of the line)
				}
				html += h
				br := mode != 0 && i < n-1
				switch end {
				case " +":
					br = true
				default:
					html += end
				}
				if br {
					html += "<br>"
				}
				if i < n-1 {
					src += "\n"
					html += "\n"
				}
			}
			places := [][2]string{{"«\n", "<p>«</p>"}, {"NOTE: «\n", "«\n</td>"}, {"[quote]\n«\n", "<blockquote>\n«\n</blockquote>"}, {"[verse]\n«\n", `<pre class="content">«</pre>`}, {"====\n«\n====\n", "<p>«</p>"}, {"* «\n", "<p>«</p>"}, {"b:: «\n", "<p>«</p>"}, {"* b\n+\n%«\n", "<p>«</p>"}}
			p := core.PickOf(g, places)
			s := p[0]
			opt := ""
			switch mode {
			case 1:
				opt = "[%hardbreaks]\n"
			case 2:
				opt = "[options=hardbreaks]\n"
			case 3:
				s = ":hardbreaks:\n\n" + s
			case 4:
				opt = "[.r%hardbreaks]\n.t\n"
			}
			if opt != "" {
				switch {
				case strings.HasPrefix(s, "===="):
					s = "====\n" + opt + s[5:]
				case strings.HasPrefix(s, "[quote"), strings.HasPrefix(s, "[verse"):
					s = s[:6] + opt[1:len("[%hardbreaks]")-1]
					if mode != 1 {
						return g.Skip()
					}
					s += "]\n«\n"
				case strings.HasPrefix(s, "b::"), strings.HasPrefix(s, "* «"):
					return g.Skip()
				case strings.Contains(s, "%«"):
					s = strings.Replace(s, "%", opt, 1)
					opt = ""
				default:
					s = opt + s
				}
			}
			s = strings.Replace(s, "%«", "«", 1)
			return c37Case(strings.ReplaceAll(s, "«", src), src, strings.ReplaceAll(p[1], "«", html))
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C37", Title: "Typographic shorthands and line breaks are replaced in text, and only there", Families: c37Families,
		Bounds: "all texts with 2 (thorough: 3) of 10 shorthands, escaped or not, with 13 separations; each in all the places of a document where text can be, and pairs in 9 places where nothing is replaced; paragraphs of 2 or 3 (thorough: 4) lines with 4 endings and 5 ways to ask for breaks in 8 places",
	})
}

func escapeHTML(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}
