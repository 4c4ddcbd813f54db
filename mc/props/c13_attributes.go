package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// places where references to attributes and counters are replaced: each § is a reference
var refPlaces = []struct{ name, src string }{
	{"paragraph", "a§ b§ c"},
	{"start", "§ b §"},
	{"glued", "a§§b"},
	{"two-lines", "a§\nb§"},
	{"line-break", "a§ +\n§"},
	{"quoted", "*b§* `c§`"},
	{"nested-quotes", "_a *b§*_ §"},
	{"unconstrained", "a**b§**c __§__"},
	{"marked", "[.r]#a§# b§"},
	{"single-quotes", "\"`a§`\" '`b§`'"},
	{"title", ".a§\nb§"},
	{"title-attribute", "[title=\"a§ b\"]\nc§"},
	{"section", "== a§\n\nb§"},
	{"section-quoted", "=== a *b§*\n\nb§"},
	{"section-id", "[#x§]\n== a\n\nb§"},
	{"ulist", "* a§\n* b§"},
	{"ulist-nested", "* a§\n** b§"},
	{"ulist-title", ".a§\n* b§"},
	{"checklist", "* [x] a§\n* [ ] b§"},
	{"olist", ". a§\n.. b§"},
	{"dlist", "a§:: b§"},
	{"dlist-nested", "a§:: b§\nc§::: d"},
	{"dlist-term-only", "a§::\nb§:: c"},
	{"dlist-horizontal", "[horizontal]\na§:: b§"},
	{"dlist-qanda", "[qanda]\na§:: b§"},
	{"attached", "* a§\n+\nb§"},
	{"attached-block", ". a§\n+\n====\nb§\n===="},
	{"colist", "----\nx <1>\ny <2>\n----\n<1> a§\n<2> b§"},
	{"cells", "|===\n|a§ |b§\n|==="},
	{"header-footer", "[%header%footer]\n|===\n|a§\n|b§\n|c§\n|==="},
	{"table-title", ".a§\n|===\n|b§\n|==="},
	{"a-cell", "|===\na|a§\na|\n* b§\n|==="},
	{"image", "image::x§.png[a §]"},
	{"image-attributes", ".a§\n[#i§.r§]\nimage::x.png[b§,c§,d§]"},
	{"image-link", "image::x.png[b§,link=c§]"},
	{"inline-image", "a image:x§.png[b §] c"},
	{"listing-title", ".a§\n----\nx\n----\n\nb§"},
	{"example", ".a§\n[#x§.y§]\n====\nb§\n===="},
	{"sidebar", ".a§\n****\nb§\n****"},
	{"quote", ".a§\n[quote, b§, c §]\n____\nd§\n____"},
	{"quote-paragraph", "[quote, a§, b §]\nc§"},
	{"verse", "[verse, a§, b§]\n____\nc§\n\nd§\n____"},
	{"verse-paragraph", "[verse, a§]\nb§"},
	{"open", ".a§\n--\nb§\n--"},
	{"admonition", ".a§\n[NOTE]\n====\nb§\n===="},
	{"admonition-paragraph", ".a§\nNOTE: b§"},
	{"markdown-quote", "> a§\n> b§"},
	{"nested-blocks", "====\na§\n\n****\nb§\n****\n===="},
	{"list-in-block", "====\n* a§\n** b§\n===="},
	{"literal-subs", "[subs=\"normal\"]\n....\na§\nb§\n...."},
	{"listing-subs", "[subs=\"+attributes\"]\n----\na§\nb§\n----"},
	{"listing-subs-append", "[subs=\"attributes+\"]\n----\na§ <x>\n----"},
	{"listing-subs-only", "[subs=attributes]\n----\na§\n----"},
	{"literal-paragraph-subs", "[subs=attributes]\n a§\n b§"},
	{"pass-subs", "[subs=\"attributes\"]\n++++\n<p>a§ b§</p>\n++++"},
	{"source-language", "[source,a§]\n----\nx\n----"},
	{"role-and-id", "[#a§.b§]\nc§"},
	{"anchor", "[[a§]]\nb§"},
	{"block-role", "[role=a§]\nb§"},
	{"inline-role", "[.a§]#b§#"},
	{"link", "link:a§[b§] c§"},
	{"link-attributes", "link:a[b§,role=c§] d§"},
	{"url", "https://a.b/c§[d§]"},
	{"bare-url", "a https://b.c/d§ e"},
	{"email", "a b§@c.com"},
	{"xref", "<<x,a§>> xref:y[b§]"},
	{"xref-external", "xref:a§.adoc[b§]"},
	{"footnote", "a§ footnote:[b§] c§"},
	{"index-term", "((a)) b§"},
	{"button", "btn:[a§] b§"},
	{"menu", "menu:a§[b§ > c§]"},
	{"icon", "a icon:b§[] c§"},
	{"table-width", "[width=5§]\n|===\n|x\n|==="},
	{"user-macro-like", "x:§[a]"},
	{"declaration", ":w: a§\n\nb {w} c {w}"},
	{"declaration-continued", ":w: a§ \\\n  b§\n\nb {w}"},
	{"lead", "[.lead]\na§ b§"},
	{"typographic", "a's (C) -- §..."},
	{"example-of-example", ".a§\n=====\n.b§\n====\nc§\n====\n====="},
}

// places where references are not replaced
var rawPlaces = []struct{ name, src string }{
	{"listing", "----\na§\n----"},
	{"literal", "....\na§\n...."},
	{"literal-paragraph", "a\n\n b§"},
	{"fenced", "```\na§\n```"},
	{"source", "[source,go]\n----\na§\n----"},
	{"pass", "++++\na§\n++++"},
	{"triple-plus", "a +++b§+++ c"},
	{"single-plus", "a +b§+ c"},
	{"mono-plus", "a `+b§+` c"},
	{"pass-macro", "a pass:[b§] c"},
	{"subs-none", "[subs=none]\na§"},
	{"subs-quotes", "[subs=quotes]\na *b§*"},
	{"subs-minus", "[subs=\"normal,-attributes\"]\na *b§*"},
	{"escaped", "a \\§ b\\§"},
	{"source-paragraph", "[source]\na§"},
	{"listing-paragraph", "[listing]\na§"},
	{"literal-style", "[literal]\na§"},
	{"indented", "  a§\n b§"},
	{"listing-in-list", "* a\n+\n----\nb§\n----"},
	{"a-cell-listing", "|===\na|\n----\nb§\n----\n|==="},
	{"subs-macros-listing", "[subs=\"macros\"]\n----\na§\n----"},
}

// withRefs replaces the § of a source
func withRefs(src string, refs []string) string {
	for _, r := range refs {
		src = strings.Replace(src, "§", r, 1)
	}
	return src
}

// sameOutput checks that two sources have the same output
func sameOutput(src, ref string, o lib.Opts) *core.Case {
	desc := fmt.Sprintf("source=%q", src)
	if len(o.Attrs) > 0 {
		desc += fmt.Sprintf(" attributes=%v", o.Attrs)
	}
	return &core.Case{Desc: desc, Check: func(r *core.Run) error {
		got, _, err := lib.Convert(src, o)
		if err != nil {
			return err
		}
		exp, _, err := lib.Convert(ref, lib.Opts{Backend: o.Backend, Wrap: o.Wrap})
		if err != nil {
			return err
		}
		r.Outcome(got)
		if got != exp {
			return fmt.Errorf("expected the same output as for %q:\n%s\n, got\n%s", ref, exp, got)
		}
		return nil
	}}
}

// attrModel is the reference for the values of the attributes
type attrModel struct {
	locked, vals map[string]string
}

func newAttrModel() *attrModel {
	return &attrModel{locked: map[string]string{}, vals: map[string]string{}}
}

func (m *attrModel) ref(name string) string {
	if v, ok := m.locked[name]; ok {
		return v
	}
	if v, ok := m.vals[name]; ok {
		return v
	}
	return "{" + name + "}"
}

// yamlValues are values in the front matter, with the text of a reference to them ("-" if there is none)
var yamlValues = []struct{ src, text string }{
	{"x", "x"}, {"x y", "x y"}, {`"x: y"`, "x: y"}, {"'x'", "x"}, {"1", "1"}, {"-1", "-1"}, {"1.5", "1.5"}, {"true", "true"}, {"no", "false"}, {"~", ""}, {"", ""}, {`""`, ""}, {"18446744073709551615", "18446744073709551615"}, {"2020-01-02", "2020-01-02"},
	{"[x, y]", "x, true"}, {"[x]", "x"}, {"[]", ""}, {"[x, [1, z]]", "x, 1, z"}, {"\n- x\n- z", "x, z"}, {"{g: h}", "-"}, {"[x, {g: h}]", "-"}, {"\n  g: h", "-"}, {"{}", "-"}, {"|-\n  x\n  z", "x\nz"}, {">-\n  x\n  z", "x z"}, {"x\n  z", "x z"}, {`"x <z> & w"`, "x &lt;z&gt; &amp; w"}, {`"*x*"`, "<strong>x</strong>"}, {"&k x", "x"}, {"é # c", "é"},
}

// frontMatter: the values of the front matter are those of attributes from there on
func frontMatter(g *core.Gen) *core.Case {
	v := core.PickOf(g, yamlValues)
	front := "a: " + v.src + "\n"
	other := g.Pick("", "b: z\n", "# c\n")
	if g.Bool() {
		front += other
	} else {
		if other == "" {
			return g.Skip()
		}
		front = other + front
	}
	text := v.text
	if text == "-" {
		text = "{a}"
	}
	header := g.Pick("", "= T\n", "= T\n:c: d\n", "= T\n:a: later\n", "// c\n", "\n")
	if strings.Contains(header, "later") {
		text = "later"
	}
	ref := core.PickOf(g, [][2]string{{"x {a} y", "<p>x § y</p>"}, {"* x {a}. z", "<p>x §. z</p>"}, {"x *{a}*", "<p>x <strong>§</strong></p>"}, {"[subs=attributes]\n----\nx{a}y\n----", "<pre>x§y</pre>"}, {"|===\n|x {a} y\n|===", "x § y</p>"}, {"x {a} y {a} {b}", "x § y § "}, {":e: {a}\n\nx {e}.", "x §."}})
	if strings.ContainsAny(text, "\n<&") && (strings.HasPrefix(ref[0], "[") || strings.HasPrefix(ref[0], ":") || strings.Contains(ref[0], "*{")) || text == "" && strings.Contains(ref[0], "*{") || strings.HasPrefix(ref[0], ":") && v.text == "-" && text != "later" {
		return g.Skip()
	}
	body := ref[0]
	if g.Bool() {
		body = ":!a:\n\n" + body
		text = "{a}"
		if strings.HasPrefix(ref[0], ":") || strings.Contains(ref[0], "*{") {
			return g.Skip()
		}
	}
	src := "---\n" + front + "---\n" + header + "\n" + body + "\n"
	want := strings.ReplaceAll(ref[1], "§", text)
	return &core.Case{Desc: fmt.Sprintf("%q", src), Check: func(r *core.Run) error {
		out, _, err := lib.Convert(src, lib.Opts{})
		if err != nil {
			return err
		}
		r.Outcome(out)
		n := strings.NewReplacer("\n", " ", "  ", " ")
		if !strings.Contains(n.Replace(n.Replace(strings.ReplaceAll(out, "\n</p>", "</p>"))), n.Replace(n.Replace(want))) {
			return fmt.Errorf("- %s expected in\n+ %s", want, out)
		}
		return nil
	}}
}

func init() {
	intrinsic := []struct{ name, out string }{{"sp", " "}, {"blank", ""}, {"empty", ""}, {"nbsp", "\u00a0"}, {"zwsp", "\u200b"}, {"wj", "\u2060"}, {"apos", "'"}, {"quot", "\""}, {"lsquo", "‘"}, {"rsquo", "’"}, {"ldquo", "“"}, {"rdquo", "”"}, {"deg", "°"}, {"plus", "+"}, {"brvbar", "¦"}, {"vbar", "|"}, {"startsb", "["}, {"endsb", "]"}, {"caret", "^"}, {"asterisk", "*"}, {"tilde", "~"}, {"backslash", `\`}, {"backtick", "`"}, {"two-colons", "::"}, {"cpp", "C++"}}
	core.Register(&core.Property{
		ID:          "C13",
		Title:       "A reference to an attribute has the value of the attribute at that point",
		Bounds:      fmt.Sprintf("all sequences of up to 4 operations (thorough: 5) that declare, remove or refer to two attributes, one of which in terms of the other, with sections and blocks between them, in the header or the body, with and without values from the configuration; %d places of references × values, among which undefined attributes; %d places where references are kept; %d predefined attributes in %d places; %d values in a front matter with 6 headers, other entries and 7 references", len(refPlaces), len(rawPlaces), len(intrinsic), len(refPlaces), len(yamlValues)),
		Assumptions: []string{"values are words or numbers: the treatment of markup and special characters in values is not specified (existing tests require that these are escaped twice)", "{lt}, {gt} and {amp} are left out (existing tests require that they are not escaped)"},
		Families: func(tier string) []core.Family {
			n := 0
			if tier == "thorough" {
				n = 1
			}
			return []core.Family{
				{Name: "sequences", Gen: func(g *core.Gen) *core.Case {
					m := newAttrModel()
					attrs := map[string]interface{}{}
					switch g.Choose(4) {
					case 1:
						attrs["a"] = "cfg"
						m.locked["a"] = "cfg"
					case 2:
						attrs["b"] = "cfg"
						m.locked["b"] = "cfg"
					case 3:
						attrs["a"] = ""
						m.locked["a"] = ""
					}
					src, ref := &strings.Builder{}, &strings.Builder{}
					if g.Bool() {
						// in the header
						src.WriteString("= Title\n")
						ref.WriteString("= Title\n")
					}
					body := false
					for i := 0; i < 4+n; i++ {
						op := g.Choose(9)
						if op == 0 {
							break
						}
						decl := func(s string) {
							if body {
								src.WriteString("\n")
							}
							src.WriteString(s + "\n")
						}
						switch op {
						case 1, 2, 3, 4, 5:
							name, val := "a", fmt.Sprintf("v%d", i)
							switch op {
							case 2:
								name, val = "b", "x{a}"
							case 3:
								decl(":a!:")
								delete(m.vals, "a")
								continue
							case 4:
								decl(":!b:")
								delete(m.vals, "b")
								continue
							case 5:
								name, val = "b", ""
							}
							v := strings.ReplaceAll(val, "{a}", m.ref("a"))
							decl(strings.TrimSpace(":" + name + ": " + val))
							m.vals[name] = v
						case 6, 7, 8:
							block := func(a, b string) string {
								switch op {
								case 6:
									return "(" + a + "/" + b + ")"
								case 7:
									return "== S " + b + " x " + a
								}
								return "====\n* (" + a + ")\n+\n(" + b + ")\n===="
							}
							src.WriteString("\n" + block("{a}", "{b}") + "\n")
							ref.WriteString("\n" + block(escapeRef(m.ref("a")), escapeRef(m.ref("b"))) + "\n")
							body = true
						}
					}
					if !body {
						return g.Skip()
					}
					g.State(src.String())
					return sameOutput(src.String(), ref.String(), lib.Opts{Attrs: attrs})
				}},
				{Name: "front-matter", Gen: frontMatter},
				{Name: "places", Gen: func(g *core.Gen) *core.Case {
					p := core.PickOf(g, refPlaces)
					count := strings.Count(p.src, "§")
					var refs, vals []string
					attrs := map[string]interface{}{"cfg": "config", "num": 12, "on": true}
					decl := ":experimental:\n:a: val\n:long-name_1: 7\n:two: x y\n:in: {a}z\n\n"
					decl = strings.ReplaceAll(decl, "long-name_1", "long-name-1")
					values := []struct{ ref, val string }{{"{a}", "val"}, {"{cfg}", "config"}, {"{long-name-1}", "7"}, {"{two}", "x y"}, {"{in}", "valz"}, {"{num}", "12"}}
					first := g.Choose(len(values) - 2 + 2*n)
					switch p.name {
					case "inline-role", "role-and-id", "xref-external", "section-id", "image", "inline-image", "link", "url", "bare-url", "link-attributes", "example", "image-attributes":
						values[3] = values[0] // no space in the shorthand notation and in locations
					}
					full := count <= 2+n && first < 3
					for i := 0; i < count; i++ {
						k := (first + i) % len(values)
						if full && i > 0 {
							k = g.Choose(len(values))
						}
						refs, vals = append(refs, values[k].ref), append(vals, values[k].val)
					}
					src, ref := withRefs(p.src, refs), withRefs(p.src, vals)
					o := lib.Opts{Attrs: attrs}
					return sameOutput(decl+src+"\n", ":experimental:\n\n"+ref+"\n", o)
				}},
				{Name: "undefined", Gen: func(g *core.Gen) *core.Case {
					p := core.PickOf(g, refPlaces)
					if p.name == "email" || p.name == "icon" {
						return g.Skip() // not an address or an icon without value
					}
					src, ref := p.src, p.src
					for i := strings.Count(p.src, "§"); i > 0; i-- {
						name := g.Pick("u", "not-set")
						src = strings.Replace(src, "§", "{"+name+"}", 1)
						ref = strings.Replace(ref, "§", "zzz"+name+"zzz", 1)
					}
					src, ref = ":experimental:\n\n"+src+"\n", ":experimental:\n\n"+ref+"\n"
					return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
						got, err := lib.HTML(src)
						if err != nil {
							return err
						}
						exp, err := lib.HTML(ref)
						if err != nil {
							return err
						}
						r.Outcome(got)
						for _, n := range []string{"u", "not-set"} {
							exp = strings.ReplaceAll(exp, "zzz"+n+"zzz", "{"+n+"}")
						}
						// the ids of sections depend on their titles
						norm := func(s string) string {
							d, err := lib.ParseHTML(s)
							if err != nil {
								return err.Error()
							}
							d.Walk(func(n *lib.Node) bool {
								if strings.HasPrefix(n.Tag, "h") && len(n.Tag) == 2 && strings.HasPrefix(n.Attrs["id"], "_") {
									delete(n.Attrs, "id")
								}
								return true
							})
							return d.Canon()
						}
						if a, b := norm(got), norm(exp); a != b {
							return fmt.Errorf("expected\n%s\n, got\n%s", b, a)
						}
						return nil
					}}
				}},
				{Name: "raw", Gen: func(g *core.Gen) *core.Case {
					p := core.PickOf(g, rawPlaces)
					r := g.Pick("a", "cfg", "nbsp", "undefined")
					src := strings.ReplaceAll(p.src, "§", "{"+r+"}")
					decl := ":a: val\n\n"
					exp := strings.ReplaceAll(strings.ReplaceAll(p.src, "\\§", "§"), "§", "zzz")
					o := lib.Opts{Attrs: map[string]interface{}{"cfg": "config"}}
					return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(rr *core.Run) error {
						got, _, err := lib.Convert(decl+src+"\n", o)
						if err != nil {
							return err
						}
						e, err := lib.HTML(exp + "\n")
						if err != nil {
							return err
						}
						rr.Outcome(got)
						if e := strings.ReplaceAll(e, "zzz", "{"+r+"}"); got != e {
							return fmt.Errorf("expected\n%s\n, got\n%s", e, got)
						}
						return nil
					}}
				}},
				{Name: "predefined", Gen: func(g *core.Gen) *core.Case {
					p := core.PickOf(g, refPlaces)
					a := core.PickOf(g, intrinsic)
					if a.name == "quot" && (strings.Contains(p.src, "r§") || p.name == "link-attributes") || strings.Contains("icon inline-role role-and-id block-role example start bare-url email table-width user-macro-like typographic url link xref-external section-id anchor xref", p.name) || (a.name == "vbar" || a.name == "two-colons") && strings.Contains(p.src, "|") {
						return g.Skip()
					}
					src := ":experimental:\n\n" + strings.ReplaceAll(p.src, "§", "{"+a.name+"}") + "\n"
					ref := ":experimental:\n\n" + strings.ReplaceAll(p.src, "§", "zzz") + "\n"
					return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
						d, err := lib.DOM(src, lib.Opts{})
						if err != nil {
							return err
						}
						e, err := lib.DOM(ref, lib.Opts{})
						if err != nil {
							return err
						}
						canon := func(d *lib.Node, val string) string {
							sb := &strings.Builder{}
							d.Walk(func(n *lib.Node) bool {
								if n.Tag == "" {
									sb.WriteString(strings.ReplaceAll(n.Text, "zzz", val))
									return true
								}
								sb.WriteString("<" + n.Tag)
								for _, k := range []string{"alt", "src", "title", "class", "href", "data-lang"} {
									if v, ok := n.Attrs[k]; ok {
										sb.WriteString(" " + k + "=" + strings.Join(strings.Fields(strings.ReplaceAll(v, "zzz", val)), " "))
									}
								}
								sb.WriteString(">")
								return true
							})
							return strings.Join(strings.FieldsFunc(sb.String(), func(r rune) bool { return r == ' ' || r == '\n' }), " ")
						}
						got, exp := canon(d, "zzz"), canon(e, a.out)
						r.Outcome(got)
						if got != exp {
							return fmt.Errorf("expected\n%s\n, got\n%s", exp, got)
						}
						return nil
					}}
				}},
			}
		},
	})
}

// escapeRef escapes the reference to an undefined attribute, so that it is kept
func escapeRef(s string) string { return strings.ReplaceAll(s, "{", "\\{") }
