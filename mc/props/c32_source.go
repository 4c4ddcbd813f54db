package props

import (
	"fmt"
	"html"
	"regexp"
	"sort"
	"strings"

	"github.com/alecthomas/chroma/v2/lexers"
	"github.com/alecthomas/chroma/v2/styles"

	"verif/mc/core"
	"verif/mc/lib"
)

var sourceCallouts = regexp.MustCompile(`(?:<[0-9]+>[ \t]*)+$`)
var sourceCallout = regexp.MustCompile(`<([0-9]+)>`)

// listedText is what a listing shows: its lines, with the callouts at their ends as ⟨n⟩.
func listedText(lines []string, callouts bool) string {
	r := []string{}
	for _, l := range lines {
		l = strings.TrimRight(l, " \t")
		if callouts {
			if loc := sourceCallouts.FindStringIndex(l); loc != nil {
				cs := ""
				for _, m := range sourceCallout.FindAllStringSubmatch(l[loc[0]:], -1) {
					cs += "⟨" + m[1] + "⟩"
				}
				l = l[:loc[0]] + cs
			}
		}
		r = append(r, l)
	}
	return strings.Trim(strings.Join(r, "\n"), "\n")
}

var preOf = regexp.MustCompile(`(?s)<pre([^>]*)>(.*?)</pre>`)
var codeOf = regexp.MustCompile(`(?s)^<code([^>]*)>(.*)</code>$`)
var conumOf = regexp.MustCompile(`<b class="conum">\(([0-9]+)\)</b>`)
var tagOf = regexp.MustCompile(`(?s)<[^>]*>`)

// listed gives the classes of the only listing of the output, its language (or "-"), and the text it shows.
func listed(out string) (pre, code, text string, err error) {
	ms := preOf.FindAllStringSubmatch(out, -1)
	if len(ms) != 1 {
		return "", "", "", fmt.Errorf("%d listings in %s", len(ms), out)
	}
	pre, text = ms[0][1], ms[0][2]
	if m := codeOf.FindStringSubmatch(text); m != nil {
		code, text = m[1], m[2]
	} else {
		code = "-"
	}
	text = conumOf.ReplaceAllString(text, "⟨$1⟩")
	return pre, code, html.UnescapeString(tagOf.ReplaceAllString(text, "")), nil
}

// a kind of listing: what is before and after its lines
type listingKind struct {
	before, after string
	language      string // "" if none
	source        bool   // with the class highlight
	pre           string // other classes
	paragraph     bool   // ended by a blank line
}

var listingKinds = []listingKind{
	{before: "----\n", after: "\n----"},
	{before: "[listing]\n----\n", after: "\n----"},
	{before: "[source]\n----\n", after: "\n----", source: true},
	{before: "[source,go]\n----\n", after: "\n----", source: true, language: "go"},
	{before: "[source%nowrap,go]\n----\n", after: "\n----", source: true, language: "go", pre: " nowrap"},
	{before: "[source,language=ruby]\n-----\n", after: "\n-----", source: true, language: "ruby"},
	{before: "[source,nolang]\n----\n", after: "\n----", source: true, language: "nolang"},
	{before: "```\n", after: "\n```", source: true},
	{before: "```go\n", after: "\n```", source: true, language: "go"},
	{before: "....\n", after: "\n...."},
	{before: "[source,go]\n", source: true, language: "go", paragraph: true},
	{before: "[listing]\n", paragraph: true},
}

// places where a listing may be
var listingPlaces = []struct{ before, after string }{
	{"", "\n"},
	{"====\n", "\n====\n"},
	{"****\na\n\n", "\n\nb\n****\n"},
	{"____\n", "\n____\n"},
	{"--\n", "\n--\n"},
	{"* a\n+\n", "\n* b\n"},
	{". a\n* b\n+\n", "\n"},
	{"a::\n+\n", "\nb:: c\n"},
	{"[NOTE]\n====\n", "\n====\n"},
	{"|===\na|\n", "\n|===\n"},
	{"= T\n\n== S\n\n.T\n[#i.r]\n", "\n\np\n"},
	{"|===\n|a a|\n\n====\n", "\n====\n|===\n"},
}

// listedCase: what the listing shows is its source, and the language and highlighter are told.
func listedCase(k listingKind, lines []string, before, after, highlighter string, attrs map[string]interface{}, backend string) *core.Case {
	src := before + k.before + strings.Join(lines, "\n") + k.after + after
	a := map[string]interface{}{}
	for n, v := range attrs {
		a[n] = v
	}
	if highlighter != "" {
		a["source-highlighter"] = highlighter
	}
	return &core.Case{
		Desc: fmt.Sprintf("source %q attributes %v %s", src, a, backend),
		Check: func(r *core.Run) error {
			out, _, err := lib.Convert(src, lib.Opts{Attrs: a, Backend: backend})
			if err != nil {
				return err
			}
			r.Outcome(out)
			pre, code, got, err := listed(out)
			if err != nil {
				return err
			}
			want := listedText(lines, true)
			highlighted := k.source && k.language != "" && (highlighter == "chroma" || highlighter == "pygments")
			if highlighted {
				// a line break is inserted between a comment and the callouts of its line
				got, want = strings.ReplaceAll(got, "\n⟨", "⟨"), strings.ReplaceAll(want, "\n⟨", "⟨")
				want = regexp.MustCompile(`[ \t]+(\n|⟨|$)`).ReplaceAllString(want, "$1")
				got = strings.TrimRight(regexp.MustCompile(`[ \t]+(\n|⟨|$)`).ReplaceAllString(got, "$1"), "\n")
			}
			if got != want {
				return fmt.Errorf("shows %q, expected %q:\n%s", got, want, out)
			}
			wantPre, wantCode := "", "-"
			if k.source {
				wantPre = ` class="highlight` + k.pre + `"`
				wantCode = ""
				if highlighter != "" && k.before != "```\n" {
					wantPre = ` class="` + highlighter + ` highlight` + k.pre + `"`
				}
				switch {
				case k.language != "" && highlighted:
					wantCode = ` data-lang="` + k.language + `"`
				case k.language != "":
					wantCode = ` class="language-` + k.language + `" data-lang="` + k.language + `"`
				}
			}
			if pre != wantPre || code != wantCode {
				return fmt.Errorf("<pre%s><code%s>, expected <pre%s><code%s>:\n%s", pre, code, wantPre, wantCode, out)
			}
			return nil
		},
	}
}

// samePlainCase: with the given substitutions, the listing shows the same with a highlighter as without.
func samePlainCase(k listingKind, subs string, lines []string, highlighter string) *core.Case {
	for i, l := range lines {
		if k.paragraph && (l == "" || i == 0 && strings.ContainsAny(l[:1], " \t*.=|#:['/N<&a\\") || strings.HasPrefix(l, "[[") || l == "|===" || strings.HasPrefix(l, "//")) {
			return nil
		}
	}
	before := k.before
	if strings.HasPrefix(before, "```") {
		before = "[subs=\"" + subs + "\"]\n" + before
	} else {
		before = strings.Replace(before, "]", ",subs=\""+subs+"\"]", 1)
	}
	src := before + strings.Join(lines, "\n") + k.after + "\n"
	return &core.Case{
		Desc: fmt.Sprintf("substitutions, %s, source %q", highlighter, src),
		Check: func(r *core.Run) error {
			texts := []string{}
			for _, h := range []string{"", highlighter} {
				out, _, err := lib.Convert(src, lib.Opts{Attrs: map[string]interface{}{"x": "1", "source-highlighter": h}})
				if err != nil {
					return fmt.Errorf("with the highlighter %q: %v", h, err)
				}
				r.Outcome(out)
				_, _, text, err := listed(out)
				if err != nil {
					return err
				}
				text = strings.ReplaceAll(text, "\n⟨", "⟨")
				texts = append(texts, strings.TrimRight(regexp.MustCompile(`[ \t]+(\n|⟨|$)`).ReplaceAllString(text, "$1"), "\n"))
			}
			if texts[0] != texts[1] {
				return fmt.Errorf("shows %q, and %q without the highlighter", texts[1], texts[0])
			}
			return nil
		},
	}
}

var sourceLines = []string{
	"var x int", "  a < b && \"c\" // d", "x // <1>", "y <2> z <3>", "<4><5>", "", "\tq  r ", "*b* _c_ {x} +p+ `m` #k# ^s^", "// c", "&lt; &#169; '\\n'",
	"<a href=\"b\">c</a>", "\\<1>", "a -- (C) ... b", "http://a.b[c] <<d>> image:e[] ((f))", "é\u2028ü", "* l", ". l", "== h", "a +", ":x: y", "# <6> ", "NOTE: n", "[[i]]", "|===", "a:: b", "<12>", "/* a", "b */", "'''", ".t",
}

func c32Families(tier string) []core.Family {
	thorough := tier == "thorough"
	languages := lexers.Names(false)
	sort.Strings(languages)
	langLines := []string{"var x = a(\"b\") // c", "# d <- e; <1>", "  <f g='h'>i &amp; j</f>", "", "/* k */ -- l", "m % n \\n{x} *n*", "<2><3>"}
	return []core.Family{
		{Name: "lines", Gen: func(g *core.Gen) *core.Case {
			n := 2
			if thorough {
				n = 3
			}
			k := core.PickOf(g, listingKinds)
			h := g.Pick("", "chroma", "pygments")
			if h != "" && (k.language == "" || !k.source) && !thorough {
				return g.Skip()
			}
			lines := []string{}
			for i := 0; i < n; i++ {
				m := len(sourceLines)
				if i > 0 && !g.Bool() {
					break
				}
				if i == 2 {
					m = 7
				}
				l := sourceLines[g.Choose(m)]
				if k.paragraph && (l == "" || i == 0 && strings.ContainsAny(l[:1], " \t*.=|#:['/N<&a\\")) {
					return g.Skip()
				}
				if k.paragraph && (l == "|===" || l == "[[i]]" || l == "// c" || l == "\tq  r " || l == ".t") {
					return g.Skip()
				}
				lines = append(lines, l)
			}
			if len(lines) == 0 || strings.Join(lines, "") == "" {
				return g.Skip()
			}
			return listedCase(k, lines, "", "\n", h, nil, "")
		}},
		{Name: "places", Gen: func(g *core.Gen) *core.Case {
			k := core.PickOf(g, listingKinds)
			p := core.PickOf(g, listingPlaces)
			h := g.Pick("", "chroma")
			lines := []string{"f(x)", core.PickOf(g, sourceLines), "g <y> <7>"}
			if k.paragraph && (lines[1] == "" || lines[1] == "// c" || lines[1] == "|===" || lines[1] == "[[i]]" || lines[1] == ".t" || lines[1] == "* l" || lines[1] == ". l" || lines[1] == "a:: b") {
				return g.Skip()
			}
			if k.paragraph && strings.HasSuffix(p.after, "b\n") && p.before[0] == '*' {
				p.after = "\n" + p.after
			}
			if strings.HasPrefix(p.before, "|===") && strings.Contains(lines[1], "|") {
				return g.Skip()
			}
			return listedCase(k, lines, p.before, p.after, h, nil, g.Pick("", "xhtml5"))
		}},
		{Name: "languages", Gen: func(g *core.Gen) *core.Case {
			l := core.PickOf(g, languages)
			if strings.ContainsAny(l, ",\"'&<+#") || l == "Jungle" { // (the lexer of chroma for Jungle never ends)
				return g.Skip()
			}
			i := g.Choose(len(langLines))
			lines := []string{langLines[i]}
			if g.Bool() {
				lines = append(append([]string{}, langLines[i:]...), langLines[:i]...)
			}
			if strings.Join(lines, "") == "" {
				return g.Skip()
			}
			h := g.Pick("chroma", "pygments")
			attrs := map[string]interface{}{}
			if css := g.Pick("", "classes", "style"); css != "" {
				attrs[h+"-css"] = css
			}
			k := listingKind{before: "[source," + l + "]\n----\n", after: "\n----", source: true, language: l}
			return listedCase(k, lines, "", "\n", h, attrs, "")
		}},
		{Name: "substitutions", Gen: func(g *core.Gen) *core.Case {
			k := core.PickOf(g, []listingKind{listingKinds[3], listingKinds[8], listingKinds[10]})
			subs := g.Pick("quotes", "+quotes", "quotes+", "attributes+", "+attributes", "attributes,verbatim", "-callouts", "specialchars", "verbatim", "normal", "macros+", "replacements+", "none", "attributes,quotes,specialchars", "post_replacements+", "callouts")
			escaped := false // the special characters of the lines are escaped first, or not at all
			switch subs {
			case "+quotes", "quotes+", "attributes+", "+attributes", "attributes,verbatim", "-callouts", "specialchars", "verbatim", "normal", "macros+", "replacements+", "attributes,quotes,specialchars", "post_replacements+":
				escaped = true
			}
			lines := []string{core.PickOf(g, sourceLines), core.PickOf(g, sourceLines), "z"}
			for _, l := range lines {
				if !escaped && strings.ContainsAny(l, "<&") {
					return g.Skip()
				}
			}
			return samePlainCase(k, subs, lines, g.Pick("chroma", "pygments"))
		}},
		{Name: "styles", Gen: func(g *core.Gen) *core.Case {
			h := g.Pick("chroma", "pygments")
			attrs := map[string]interface{}{h + "-style": core.PickOf(g, append(styles.Names(), "nostyle", "")), h + "-css": g.Pick("style", "classes", "other")}
			if g.Bool() {
				attrs["chroma-class-prefix"] = "p-"
			}
			return listedCase(core.PickOf(g, listingKinds[3:5]), langLines, "", "\n", h, attrs, "")
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C32", Title: "Listings show their source", Families: c32Families,
		Bounds:      "listings of 12 kinds with all sequences of 2 lines among 30 (3 in the thorough tier), without highlighter and with both; 30 lines in the 12 kinds at 12 places with both backends; pairs of lines with 16 lists of substitutions; all languages and all styles of the highlighter",
		Assumptions: []string{"a line break between a comment and the callouts of its line is what the tests expect, and is not looked at", "spaces at the end of the lines of highlighted listings are not looked at"},
	})
}
