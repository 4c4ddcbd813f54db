package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// places of footnotes: each '§' is a place where a footnote macro may be, in the order of the numbers
var fnPlaces = []struct{ name, src string }{
	{"paragraph", "a§ b§ c"},
	{"two-lines", "a§\nb§"},
	{"quoted", "a *b§* `c§`"},
	{"nested-quotes", "_a *b§*_ c§"},
	{"marked", "[.r]#a§# b§"},
	{"single-quotes", "\"`a§`\" '`b§`'"},
	{"title", ".a§\nb§"},
	{"section", "== a§\n\nb§"},
	{"section-quoted", "=== a *b§*\n\nb§"},
	{"section-deep", "== a\n\n==== b§\n\nc§"},
	{"ulist", "* a§\n* b§"},
	{"ulist-nested", "* a§\n** b§"},
	{"ulist-title", ".a§\n* b§"},
	{"ulist-three", "* a\n** b\n*** c§\n* d§"},
	{"checklist", "* [x] a§\n* [ ] b§"},
	{"olist", ". a§\n.. b§"},
	{"dlist", "a§:: b§"},
	{"dlist-nested", "a:: b§\nc§::: d"},
	{"dlist-term-only", "a§::\nb§:: c"},
	{"dlist-horizontal", "[horizontal]\na§:: b§"},
	{"dlist-qanda", "[qanda]\na§:: b§"},
	{"attached", "* a§\n+\nb§"},
	{"attached-block", ". a§\n+\n====\nb§\n===="},
	{"attached-table", "* a§\n+\n|===\n|b§\n|==="},
	{"colist", "----\nx <1>\ny <2>\n----\n<1> a§\n<2> b§"},
	{"cells", "|===\n|a§ |b§\n|==="},
	{"rows", "|===\n|a§\n|b§\n|==="},
	{"header-cell", "[%header]\n|===\n|a§\n|b§\n|==="},
	{"footer-cell", "[%footer]\n|===\n|a§\n|b§\n|==="},
	{"table-title", ".a§\n|===\n|b§\n|==="},
	{"a-cell", "|===\na|a§\na|\n* b§\n|==="},
	{"styled-cells", "|===\ns|a§\nm|b§\n|==="},
	{"column-styles", "[cols=\"e,m\"]\n|===\n|a§ |b§\n|==="},
	{"image-title", ".a§\nimage::x.png[]\n\nb§"},
	{"listing-title", ".a§\n----\nx\n----\n\nb§"},
	{"literal-title", ".a§\n....\nx\n....\n\nb§"},
	{"source-title", ".a§\n[source,go]\n----\nx\n----\n\nb§"},
	{"example", ".a§\n====\nb§\n===="},
	{"sidebar", ".a§\n****\nb§\n****"},
	{"quote", ".a§\n____\nb§\n____"},
	{"open", ".a§\n--\nb§\n--"},
	{"admonition", ".a§\n[NOTE]\n====\nb§\n===="},
	{"admonition-paragraph", ".a§\nNOTE: b§"},
	{"admonition-style", "[TIP]\na§ b§"},
	{"verse", "[verse]\n____\na§\n\nb§\n____"},
	{"verse-paragraph", "[verse]\na§\nb§"},
	{"quote-paragraph", "[quote]\na§ b§"},
	{"markdown-quote", "> a§\n> b§"},
	{"nested-blocks", "====\na§\n\n****\nb§\n****\n===="},
	{"list-in-block", "====\n* a§\n** b§\n===="},
	{"block-in-list-in-block", "--\n. a§\n+\n====\nb§\n====\n--"},
	{"literal-subs", "[subs=\"normal\"]\n....\na§\nb§\n...."},
	{"listing-subs", "[subs=\"+macros\"]\n----\na§\nb§\n----"},
	{"literal-paragraph-subs", "[subs=macros]\n a§\n b§"},
	{"pass-subs", "[subs=\"macros\"]\n++++\n<p>a§ b§</p>\n++++"},
	{"pass-macro", "a pass:m[b§] c§"},
	{"lead", "[.lead]\na§ b§"},
	{"link-label", "https://a.b[x] a§ link:c[y] b§"},
	{"xref-before", "<<x>>§ and <<y,z>>§"},
}

// contents of footnotes: source and markup in the output
var fnContents = []struct{ src, out string }{
	{"n%d", "n%d"},
	{"n%d *b* `c`", "n%d <strong>b</strong> <code>c</code>"},
	{"n%d https://a.b[link] c", "n%d <a>link</a> c"},
	{"https://a.b/n%d c", "<a>https://a.b/n%d</a> c"},
	{"n%d & < >", "n%d &amp; &lt; &gt;"},
	{"n%d\nb", "n%d b"},
	{"n%d {v}", "n%d value"},
	{"n%d image:i.png[] b", "n%d <span><img></img></span> b"},
	{"n%d -- (C) ...", "n%d\u2009\u2014\u2009\u00a9 \u2026\u200b"},
	{"n%d \"`q`\" '`r`'", "n%d \u201cq\u201d \u2018r\u2019"},
	{"n%d <<x,lab>>", "n%d <a>lab</a>"},
	{"n%d +*b*+ pass:[<u>c</u>]", "n%d *b* <u>c</u>"},
	{"n%d icon:tip[] b", "n%d <span>[tip]</span> b"},
	{"  n%d  ", "n%d"},
	{"n%d: b, c; d", "n%d: b, c; d"},
	{"n%d btn:[OK] b", "n%d <b>OK</b> b"},
}

// fnModel numbers the footnotes
type fnModel struct {
	notes []string       // markup
	refs  []string       // what is expected at each place
	ids   map[string]int // named notes
}

// op returns the source of the macro
//
//	0: nothing, 1: a note, 2: a note with a name, 3: a reference to this note, 4: another named note, 5: a reference to it, 6: a reference to an unknown note
func (m *fnModel) op(op, content int) string {
	name := map[int]string{2: "x", 3: "x", 4: "x-1", 5: "x-1", 6: "X"}[op]
	switch op {
	case 0:
		return ""
	case 1, 2, 4:
		n := len(m.notes) + 1
		c := fnContents[content]
		m.notes = append(m.notes, fmt.Sprintf(c.out, n))
		ref := fmt.Sprintf("%d", n)
		if name != "" {
			m.ids[name] = n
			ref += " " + name
		}
		m.refs = append(m.refs, ref)
		return "footnote:" + name + "[" + fmt.Sprintf(c.src, n) + "]"
	default:
		if n, ok := m.ids[name]; ok {
			m.refs = append(m.refs, fmt.Sprintf("ref %d", n))
		} else {
			m.refs = append(m.refs, "unresolved "+name)
		}
		return "footnote:" + name + "[]"
	}
}

func (m *fnModel) allowed(op int) bool {
	return !(op == 2 && m.ids["x"] > 0 || op == 4 && m.ids["x-1"] > 0) // a name is given once
}

func newFnModel() *fnModel { return &fnModel{ids: map[string]int{}} }

func (m *fnModel) check(src string, o lib.Opts) *core.Case {
	o.Attrs = map[string]interface{}{"v": "value", "experimental": ""}
	return &core.Case{Desc: fmt.Sprintf("backend=%s wrap=%v source=%q", o.Backend, o.Wrap, src), Check: func(r *core.Run) error {
		d, err := lib.DOM(src, o)
		if err != nil {
			return err
		}
		ids := map[string]bool{}
		for _, id := range d.IDs() {
			if ids[id] && strings.HasPrefix(id, "_footnote") {
				return fmt.Errorf("the id %q is there twice\n%s", id, d.Brief())
			}
			ids[id] = true
		}
		var refs []string
		var list *lib.Node
		d.Walk(func(n *lib.Node) bool {
			switch {
			case n.Is("div") && n.Attrs["id"] == "footnotes":
				list = n
				return false
			case n.Is("sup.footnote"):
				a := n.First("a")
				if a == nil {
					refs = append(refs, "?"+n.Canon())
					break
				}
				num := strings.TrimPrefix(a.Attrs["id"], "_footnoteref_")
				s := num
				if n.Attrs["id"] != "" {
					s += " " + strings.TrimPrefix(n.Attrs["id"], "_footnote_")
				}
				if a.Attrs["href"] != "#_footnotedef_"+num || n.Inline() != "["+num+"]" {
					s += "?" + n.Canon()
				}
				refs = append(refs, s)
			case n.Is("sup.footnoteref"):
				a := n.First("a")
				if a == nil {
					refs = append(refs, "unresolved "+strings.Trim(n.Inline(), "[]"))
					break
				}
				num := strings.TrimPrefix(a.Attrs["href"], "#_footnotedef_")
				s := "ref " + num
				if n.Inline() != "["+num+"]" || a.Attrs["id"] != "" || n.Attrs["id"] != "" {
					s += "?" + n.Canon()
				}
				refs = append(refs, s)
			}
			return true
		})
		if strings.Contains(d.Content(), "footnote:") {
			return fmt.Errorf("a footnote is not rendered\n%s", d.Brief())
		}
		r.Outcome(strings.Join(refs, ","))
		if a, b := strings.Join(m.refs, ", "), strings.Join(refs, ", "); a != b {
			return fmt.Errorf("references %q expected, got %q\n%s", a, b, d.Brief())
		}
		var notes []string
		if list != nil {
			for i, n := range list.Children() {
				if i == 0 && n.Tag == "hr" {
					continue
				}
				a := n.First("a")
				pre := fmt.Sprintf("%d", i)
				if !n.Is("div.footnote") || a == nil || n.Attrs["id"] != "_footnotedef_"+pre || a.Attrs["href"] != "#_footnoteref_"+pre || a.Inline() != pre {
					return fmt.Errorf("unexpected note %s", n.Canon())
				}
				t := strings.TrimSpace(markup(n))
				notes = append(notes, strings.TrimPrefix(t, "<a>"+pre+"</a>. "))
			}
			if len(notes) == 0 {
				return fmt.Errorf("the list of notes is empty")
			}
		}
		if a, b := strings.Join(m.notes, "|"), strings.Join(notes, "|"); a != b {
			return fmt.Errorf("notes %q expected, got %q\n%s", a, b, d.Brief())
		}
		return nil
	}}
}

// fill gives the source of the place, with one operation in each slot
func (m *fnModel) fill(g *core.Gen, src string, ops, content int) (string, bool) {
	out := ""
	for {
		i := strings.Index(src, "§")
		if i < 0 {
			return out + src, true
		}
		op := g.Dev(ops)
		if !m.allowed(op) {
			return "", false
		}
		out += src[:i] + m.op(op, content)
		src = src[i+len("§"):]
	}
}

func init() {
	pick := func(g *core.Gen) lib.Opts {
		if g.Bool() {
			return lib.Opts{Backend: "xhtml5", Wrap: true}
		}
		return lib.Opts{}
	}
	core.Register(&core.Property{
		ID:     "C17",
		Title:  "Footnotes are numbered in order, listed once, and linked both ways",
		Bounds: fmt.Sprintf("all pairs of the %d places with up to 2 macros (thorough: 3) in their slots, among notes, named notes, references and unknown references; all sequences of up to 5 (6) macros of 7 kinds in paragraphs; up to 25 (120) named notes and a reference to any of them; each of the %d contents in each place, alone and after another note; each place in each container", len(fnPlaces), len(fnContents)),
		Assumptions: []string{"documents with a table of contents are excluded: the references in the titles of its entries are repeated (an existing test requires it)",
			"a name is given to one note only, and an identifier does not precede its note"},
		Families: func(tier string) []core.Family {
			n := 0
			if tier == "thorough" {
				n = 1
			}
			return []core.Family{
				{Name: "pairs", Gen: func(g *core.Gen) *core.Case {
					m := newFnModel()
					a, b := core.PickOf(g, fnPlaces), core.PickOf(g, fnPlaces)
					g.SetBudget(2 + n)
					s1, ok1 := m.fill(g, a.src, 4, 0)
					if !ok1 || len(m.refs) == 0 {
						return g.Skip()
					}
					first := len(m.refs)
					s2, ok2 := m.fill(g, b.src, 4, 0)
					if !ok2 || len(m.refs) == first {
						return g.Skip()
					}
					return m.check(s1+"\n\n//\n\n"+s2+"\n", lib.Opts{})
				}},
				{Name: "sequences", Gen: func(g *core.Gen) *core.Case {
					m := newFnModel()
					src := ""
					for i := 0; i < 5+n; i++ {
						op := g.Choose(7)
						if op == 0 {
							break
						}
						if !m.allowed(op) {
							return g.Skip()
						}
						src += "w" + m.op(op, 0)
						if i%2 == 1 {
							src += "\n\n"
						}
						g.State(src)
					}
					if src == "" {
						src = "w"
					}
					return m.check(src+"\n", pick(g))
				}},
				{Name: "many", Gen: func(g *core.Gen) *core.Case {
					max := 25
					if tier == "thorough" {
						max = 120
					}
					n := 1 + g.Choose(max)
					k := 1 + g.Choose(n)
					src := "a\n"
					for i := 1; i <= n; i++ {
						src += fmt.Sprintf("b footnote:n%d[t%d]\n", i, i)
						if i%4 == 0 {
							src += "\n* a\n\n"
						}
					}
					src += fmt.Sprintf("\nc footnote:n%d[] d footnote:[u]\n", k)
					return &core.Case{Desc: fmt.Sprintf("%d notes, reference to number %d", n, k), Check: func(r *core.Run) error {
						out, _, err := lib.Convert(src, lib.Opts{})
						if err != nil {
							return err
						}
						r.Outcome(out)
						want := []string{fmt.Sprintf(`c <sup class="footnoteref">[<a class="footnote" href="#_footnotedef_%d" title="View footnote.">%d</a>]</sup> d <sup class="footnote">[<a id="_footnoteref_%d" class="footnote" href="#_footnotedef_%d" title="View footnote.">%d</a>]</sup>`, k, k, n+1, n+1, n+1)}
						for i := 1; i <= n; i++ {
							want = append(want,
								fmt.Sprintf(`b <sup class="footnote" id="_footnote_n%d">[<a id="_footnoteref_%d" class="footnote" href="#_footnotedef_%d" title="View footnote.">%d</a>]</sup>`, i, i, i, i),
								fmt.Sprintf("<div class=\"footnote\" id=\"_footnotedef_%d\">\n<a href=\"#_footnoteref_%d\">%d</a>. t%d\n</div>\n", i, i, i, i))
						}
						for _, w := range want {
							if strings.Count(out, w) != 1 {
								return fmt.Errorf("- %s expected once in\n+ %s", w, out)
							}
						}
						return nil
					}}
				}},
				{Name: "contents", Gen: func(g *core.Gen) *core.Case {
					m := newFnModel()
					p := core.PickOf(g, fnPlaces)
					c := g.Choose(len(fnContents))
					if strings.Contains(fnContents[c].src, "\n") && !strings.Contains(" paragraph two-lines quoted olist ulist admonition-style quote-paragraph ", " "+p.name+" ") {
						return g.Skip() // titles, terms... are on one line
					}
					if strings.Contains(p.name, "subs") && c > 0 {
						return g.Skip()
					}
					o := pick(g)
					src := ""
					if g.Bool() {
						src = "w" + m.op(1, 0) + "\n\n"
					}
					if o.Wrap {
						src = "= Title\n\n" + src
					}
					g.SetBudget(2)
					s, ok := m.fill(g, p.src, 3, c)
					if !ok || len(m.refs) == 0 {
						return g.Skip()
					}
					return m.check(src+s+"\n", o)
				}},
				{Name: "containers", Gen: func(g *core.Gen) *core.Case {
					m := newFnModel()
					c := core.PickOf(g, containers)
					p := core.PickOf(g, fnPlaces)
					b := block{"x", p.src}
					if strings.HasPrefix(p.name, "section") && c.name != "root" || c.inList && !delimited(p.src) && (strings.Contains(p.src, "\n\n") || strings.Contains(p.src, "\n") && strings.Contains("* . x: a§: [hor [qan", p.src[:2])) || !b.fits(c) || p.name == "colist" && c.inList || strings.Contains(c.name, "a-cell") && strings.Contains(p.src, "|") {
						return g.Skip()
					}
					if c.inList && (strings.Contains(p.name, "list") || p.name == "markdown-quote" || strings.HasPrefix(p.name, "attached")) {
						return g.Skip()
					}
					before := ""
					g.SetBudget(3)
					if c.inList {
						var ok bool
						if before, ok = m.fill(g, strings.Replace(c.before, "«", "w§", 1), 3, 0); !ok {
							return g.Skip()
						}
					} else {
						before = c.before
					}
					before, _, _ = fill(before, "c")
					s, ok := m.fill(g, p.src, 4, 0)
					if !ok {
						return g.Skip()
					}
					last, ok := m.fill(g, "\n\n//\n\nw§\n", 4, 0)
					if !ok {
						return g.Skip()
					}
					return m.check(before+s+c.after+last, lib.Opts{})
				}},
			}
		},
	})
}
