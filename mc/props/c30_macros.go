package props

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/types"
)

// recorder is the template of a user macro: it writes what it is given, and may fail.
type recorder struct {
	runs   *int
	failAt int // 0: never
	err    error
	part   bool // write before failing
}

// macroOutput is what a recorder writes.
func macroOutput(kind, name, value string, attrs map[string]string) string {
	keys := []string{}
	for k := range attrs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	b := &strings.Builder{}
	fmt.Fprintf(b, "<b data-kind=\"%s\">«%s|%s", kind, name, value)
	for _, k := range keys {
		fmt.Fprintf(b, "|%s=%s", k, attrs[k])
	}
	b.WriteString("»</b>")
	return b.String()
}

func (m recorder) Execute(w io.Writer, data interface{}) error {
	*m.runs++
	if *m.runs == m.failAt {
		if m.part {
			_, _ = io.WriteString(w, "partial")
		}
		return m.err
	}
	u, ok := data.(*types.UserMacro)
	if !ok {
		return fmt.Errorf("not a macro: %T", data)
	}
	attrs := map[string]string{}
	for k, v := range u.Attributes {
		attrs[k] = fmt.Sprint(v)
	}
	_, err := io.WriteString(w, macroOutput(string(u.Kind), u.Name, u.Value, attrs))
	return err
}

func macroSettings(names []string, m recorder) map[string]configuration.MacroTemplate {
	r := map[string]configuration.MacroTemplate{}
	for _, n := range names {
		r[n] = m
	}
	return r
}

// macroCase: the source, with macros of the given names, has the HTML.
func macroCase(names []string, src, want string, exact bool) *core.Case {
	return &core.Case{
		Desc: fmt.Sprintf("%q with macros %q", src, names),
		Check: func(r *core.Run) error {
			runs := 0
			out, _, err := lib.Convert(src, lib.Opts{Attrs: map[string]interface{}{"x": "value", "y": "a b"}, Macros: macroSettings(names, recorder{runs: &runs})})
			if err != nil {
				return err
			}
			r.Outcome(out)
			if exact && out != want || !strings.Contains(out, want) {
				return fmt.Errorf("no %s in %s", want, out)
			}
			if n := strings.Count(want, "«"); strings.Count(out, "«") != n {
				return fmt.Errorf("%d outputs of macros, expected %d: %s", strings.Count(out, "«"), n, out)
			}
			return nil
		},
	}
}

var macroValues = []string{"", "v", "a-b_c", "a.b/c", "é1", "{x}", "a{x}b", "a,b=c", "*a*", "a&b", "\"a\"", "a@b.c", "_a_", "(C)", "1", "a'b", "a...b", "#a#", "a:b", "http://a.b/c"}

var macroAttrs = []struct {
	src   string
	attrs map[string]string
}{
	{"", nil}, {"a", map[string]string{"@positional-1": "a"}}, {"a,b", map[string]string{"@positional-1": "a", "@positional-2": "b"}}, {"a=b", map[string]string{"a": "b"}}, {`a="b, c"`, map[string]string{"a": "b, c"}},
	{"a,b=c,d=e", map[string]string{"@positional-1": "a", "b": "c", "d": "e"}}, {"a=b,c", map[string]string{"a": "b", "@positional-1": "c"}}, {"{x}", map[string]string{"@positional-1": "value"}}, {"a={x}", map[string]string{"a": "value"}}, {`a="b {y}"`, map[string]string{"a": "b a b"}},
	{"a b c", map[string]string{"@positional-1": "a b c"}}, {`"a,b"`, map[string]string{"@positional-1": "a,b"}}, {"a='b'", map[string]string{"a": "b"}}, {"a=b=c", map[string]string{"a": "b=c"}}, {`a=""`, map[string]string{"a": ""}}, {"a-b=c", map[string]string{"a-b": "c"}}, {"title=T", map[string]string{"title": "T"}}, {"role=r", map[string]string{"roles": "[r]"}}, {"id=i", map[string]string{"id": "i"}},
}

func c30Families(tier string) []core.Family {
	return []core.Family{
		{Name: "uses", Gen: func(g *core.Gen) *core.Case {
			name := g.Pick("m", "hello", "a-b", "x_y", "é1", "1", "m-", "Mm", "É")
			v := core.PickOf(g, macroValues)
			a := core.PickOf(g, macroAttrs)
			value := strings.ReplaceAll(v, "{x}", "value")
			if g.Bool() {
				return macroCase([]string{name}, name+"::"+v+"["+a.src+"]\n", macroOutput("block", name, value, a.attrs), true)
			}
			c := core.PickOf(g, []linkContext{{"", "", "", ""}, {"x ", " y", "x ", " y"}, {"(", ")", "(", ")"}, {"x: ", ".", "x: ", "."}, {"*", "*", "<strong>", "</strong>"}, {"_x ", " y_", "<em>x ", " y</em>"}, {"x\n", "\ny", "x\n", "\ny"}, {"x@y.z ", " x@y.z", `<a href="mailto:x@y.z">x@y.z</a> `, ` <a href="mailto:x@y.z">x@y.z</a>`}, {"[", "]", "[", "]"}, {"x, ", " +\ny", "x, ", "<br>\ny"}})
			return macroCase([]string{name}, c.before+name+":"+v+"["+a.src+"]"+c.after+"\n", "<p>"+c.htmlBefore+macroOutput("inline", name, value, a.attrs)+c.htmlAfter+"</p>", false)
		}},
		{Name: "names", Gen: func(g *core.Gen) *core.Case {
			// a macro is used only by its whole name
			names := []string{"he", "hello", "he-llo", "lo"}
			sub := []string{}
			for _, n := range names {
				if g.Bool() {
					sub = append(sub, n)
				}
			}
			src, want := "", ""
			for i := 0; i < 2; i++ {
				n := core.PickOf(g, names)
				v := g.Pick("", "v")
				out := n + ":" + v + "[]"
				for _, s := range sub {
					if s == n {
						out = macroOutput("inline", n, v, nil)
					} else if n == "he-llo" && s == "llo" {
						return g.Skip()
					}
				}
				src += "x " + n + ":" + v + "[] "
				want += "x " + out + " "
			}
			return macroCase(sub, src+"z\n", "<p>"+want+"z</p>", false)
		}},
		{Name: "sequences", Gen: func(g *core.Gen) *core.Case {
			// several uses, with attributes which change in between
			src, want := "", ""
			x := "value"
			n := 2
			if tier == "thorough" {
				n = 3
			}
			for i := 0; i < n; i++ {
				if i > 0 && g.Bool() {
					x = fmt.Sprint("y", i)
					src += ":z: " + x + "\n\n"
				}
				name := g.Pick("m", "n")
				v := g.Pick("", "v", "{z}")
				a := g.Pick("", "a", "a={z}", "b={z},{z}")
				attrs := map[string]string{}
				switch a {
				case "a":
					attrs["@positional-1"] = "a"
				case "a={z}":
					attrs["a"] = x
				case "b={z},{z}":
					attrs["b"], attrs["@positional-1"] = x, x
				}
				value := strings.ReplaceAll(v, "{z}", x)
				if g.Bool() {
					src += name + "::" + v + "[" + a + "]\n\n"
					want += macroOutput("block", name, value, attrs)
				} else {
					src += "p " + name + ":" + v + "[" + a + "] q\n\n"
					want += "<div class=\"paragraph\">\n<p>p " + macroOutput("inline", name, value, attrs) + " q</p>\n</div>\n"
				}
			}
			return macroCase([]string{"m", "n"}, ":z: value\n\n"+src, want, true)
		}},
		{Name: "places", Gen: func(g *core.Gen) *core.Case {
			p := core.PickOf(g, linkPlaces)
			type use struct{ src, html string }
			m := func(v string) string { return macroOutput("inline", "m", v, nil) }
			u := core.PickOf(g, []use{{"m:v[]", m("v")}, {"x m:v[], m:w[]", "x " + m("v") + ", " + m("w")}, {"m: v[]", "m: v[]"}, {"m:v", "m:v"}, {"m:v []", "m:v []"}, {"mm:v[]", "mm:v[]"}, {"m;v[]", "m;v[]"}, {"m:[]", m("")}})
			if strings.HasPrefix(p.src, "==") {
				return g.Skip() // (not supported)
			}
			if strings.Contains(p.src, "footnote") && strings.Contains(u.src, "]") && !strings.Contains(u.html, "«") {
				return g.Skip() // (ends at the first bracket)
			}
			if strings.HasPrefix(p.src, "|===") {
				p = linkPlace{"|===\n|b |a «\n|===\n", `<p class="tableblock">a «</p>`}
			}
			return macroCase([]string{"m"}, strings.ReplaceAll(p.src, "«", u.src), strings.ReplaceAll(p.html, "«", u.html), false)
		}},
		{Name: "verbatim", Gen: func(g *core.Gen) *core.Case {
			b := core.PickOf(g, [][2]string{{"----\n«\n----\n", "<pre>«</pre>"}, {"....\n«\n....\n", "<pre>«</pre>"}, {" «\n", "<pre>«</pre>"}, {"```\n«\n```\n", "<code>«</code>"}, {"++++\n«\n++++\n", "«"}, {"a +«+ b\n", "a « b"}, {"a `+«+` b\n", "a <code>«</code> b"}, {"a +++«+++ b\n", "a « b"}, {"a pass:[«] b\n", ""}, {"////\n«\n////\n\na\n", ""}, {"// «\n\na\n", ""}, {"[subs=quotes]\n«\n", "<p>«</p>"}, {"[stem]\n++++\n«\n++++\n", ""}, {"[subs=none]\na « b\n", "a « b"}, {"[source,go]\n----\n«\n----\n", "«</code>"}})
			u := g.Pick("m:v[]", "m::v[]", "x m:v[] y", "m::v[a=b]")
			if strings.HasPrefix(b[0], "a pass") || b[1] == "" || strings.Contains(b[0], "subs=quotes") && strings.Contains(u, "::") {
				return g.Skip()
			}
			return macroCase([]string{"m"}, strings.ReplaceAll(b[0], "«", u), strings.ReplaceAll(b[1], "«", u), false)
		}},
		{Name: "blocks", Gen: func(g *core.Gen) *core.Case {
			// a block macro between other blocks, attached to an item or in a delimited block
			m := macroOutput("block", "m", "v", nil)
			p := func(s string) string { return "<div class=\"paragraph\">\n<p>" + s + "</p>\n</div>\n" }
			c := core.PickOf(g, [][2]string{
				{"a\n\nm::v[]\n\nb\n", p("a") + m + p("b")}, {"m::v[]\nb\n", m + p("b")}, {"m::v[]\nm::v[]\n", m + m}, {"m::v[]\n\n\nm::v[]\n", m + m},
				{"== a\n\nm::v[]\n\n== b\n", "<div class=\"sectionbody\">\n" + m}, {"* a\n+\nm::v[]\n* b\n", "<p>a</p>\n" + m + "</li>"}, {". a\n+\nm::v[]\n+\nb\n", "<p>a</p>\n" + m + p("b") + "</li>"}, {"a:: b\n+\nm::v[]\n", "<p>b</p>\n" + m + "</dd>"},
				{"====\nm::v[]\n====\n", "<div class=\"content\">\n" + m + "</div>"}, {"****\na\n\nm::v[]\n****\n", p("a") + m + "</div>"}, {"____\nm::v[]\n\na\n____\n", m + p("a")}, {"--\nm::v[]\n--\n", m}, {"|===\na|m::v[]\n|===\n", m},
				{"= T\n\nm::v[]\n\n== a\n", m + "</div>"}, {"= T\n:z: z\n\na\n\nm::v[]\n", p("a") + m}, {"// c\nm::v[]\n", m}, {":z: z\n\nm::v[]\n", m}, {"'''\n\nm::v[]\n\n'''\n", "<hr>\n" + m + "<hr>\n"}, {"----\na\n----\nm::v[]\n", "</pre>\n</div>\n</div>\n" + m}, {"m::v[]\n* a\n", m + "<div class=\"ulist\">"}, {"m::v[]\n----\na\n----\n", m + "<div class=\"listingblock\">"}, {"ifdef::x[]\nm::v[]\nendif::[]\n", m}, {"[#i.r]\nm::v[]\n", ""}, {"a\nm::v[]\n", ""},
			})
			if c[1] == "" {
				return g.Skip()
			}
			return macroCase([]string{"m"}, c[0], c[1], false)
		}},
		{Name: "failures", Gen: func(g *core.Gen) *core.Case {
			n := 1 + g.Choose(3)
			at := 1 + g.Choose(4)
			part := g.Bool()
			wrap := g.Bool()
			backend := g.Pick("html5", "xhtml5")
			src := ""
			for i := 0; i < n; i++ {
				src += g.Pick("a m:v[] b\n\n", "m::v[]\n\n", "* a m:v[]\n\n//-\n\n", "|===\n|m:v[]\n|===\n\n", "====\nm::v[]\n====\n\n", ".m:v[]\n----\na\n----\n\n", "a footnote:[m:v[w]\n\n", "[quote]\nm:v[]\n\n", "m:v[]:: a\n\n//-\n\n", "[verse]\nm:v[]\n\n", "----\na <1>\n----\n<1> m:v[]\n\n", "NOTE: m:v[]\n\n")
			}
			if strings.Contains(src, "footnote") {
				return g.Skip()
			}
			return &core.Case{
				Desc: fmt.Sprintf("%q failing at %d, partial %v, wrap %v %s", src, at, part, wrap, backend),
				Check: func(r *core.Run) error {
					failure := errors.New("failure of the macro")
					runs := 0
					out, _, err := lib.Convert(src, lib.Opts{Wrap: wrap, Backend: backend, Macros: macroSettings([]string{"m"}, recorder{runs: &runs, failAt: at, err: failure, part: part})})
					r.Outcome(fmt.Sprint(out, err))
					switch {
					case runs < n:
						if at > runs {
							return fmt.Errorf("%d runs, expected %d: %v %s", runs, n, err, out)
						}
						fallthrough
					case runs >= at:
						if err == nil || !errors.Is(err, failure) && !strings.Contains(err.Error(), failure.Error()) {
							return fmt.Errorf("the failure is not reported: %v %s", err, out)
						}
					case err != nil:
						return err
					}
					return nil
				},
			}
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C30", Title: "A user macro gives the output of its template, executed with what is written", Families: c30Families,
		Bounds:      "9 names with 20 values and 19 lists of attributes, as blocks and in 10 contexts; all sets of 4 names with all pairs of uses; all pairs (thorough: triples) of 48 uses of two macros with or without a change of the attributes in between; 8 texts in 20 places; 4 uses in 14 verbatim or escaped places; 22 surroundings of blocks; 1 to 3 uses in 12 places whose 1st to 4th execution fails, before or after writing",
		Assumptions: []string{"macros in titles of sections and backslashes before macros are not supported by the library", "attributes of blocks before a macro are not looked at"},
	})
}
