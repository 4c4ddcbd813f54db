package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// captionKind is a kind of elements with captions
type captionKind struct {
	name, label, attr  string
	titled, own, plain string // with a title, with a title and its own caption, without title
	inCell             string // when the element does not fit in a cell of a table
}

var captionKinds = []captionKind{
	{"table", "Table", "table-caption", ".%s\n|===\n|x\n|===", ".%s\n[caption=\"Own \"]\n|===\n|x\n|===", "|===\n|x\n|===", ""},
	{"figure", "Figure", "figure-caption", ".%s\nimage::x.png[]", ".%s\n[caption=\"Own \"]\nimage::x.png[]", "image::x.png[]", ""},
	{"example", "Example", "example-caption", ".%s\n====\nx\n====", ".%s\n[caption=\"Own \"]\n====\nx\n====", "====\nx\n====", ""},
}

// captionModel is the reference
type captionModel struct {
	label  map[string]string // by kind; not there: no caption
	number map[string]int
	exp    []string // kind: caption and title
	titles int
	src    strings.Builder
}

func newCaptionModel() *captionModel {
	m := &captionModel{label: map[string]string{}, number: map[string]int{}}
	for _, k := range captionKinds {
		m.label[k.name] = k.label
	}
	return m
}

// title makes a title and tells what is expected
func (m *captionModel) title(k captionKind, form string) string {
	m.titles++
	t := fmt.Sprintf("title%d", m.titles)
	l, ok := m.label[k.name]
	switch {
	case form == "own":
		m.exp = append(m.exp, k.name+": Own "+t)
	case !ok:
		m.exp = append(m.exp, k.name+": "+t)
	default:
		m.number[k.name]++
		m.exp = append(m.exp, fmt.Sprintf("%s: %s %d. %s", k.name, l, m.number[k.name], t))
	}
	return t
}

// block makes an element
func (m *captionModel) block(k captionKind, form string) string {
	switch form {
	case "titled":
		return fmt.Sprintf(k.titled, m.title(k, form))
	case "named":
		return "[[x" + fmt.Sprint(m.titles) + "]]\n" + fmt.Sprintf(k.titled, m.title(k, form))
	case "attr":
		return fmt.Sprintf("[title=\"%s\"]\n", m.title(k, form)) + k.plain
	case "role":
		return "[.r]\n" + fmt.Sprintf(k.titled, m.title(k, form))
	case "own":
		return fmt.Sprintf(k.own, m.title(k, form))
	}
	m.exp = append(m.exp, k.name+":")
	return k.plain
}

// captions reads the elements of the document, in order
func captions(n *lib.Node) []string {
	var out []string
	add := func(kind string, title *lib.Node) {
		s := kind + ":"
		if title != nil {
			s += " " + title.Inline()
		}
		out = append(out, s)
	}
	n.Walk(func(n *lib.Node) bool {
		switch {
		case n.Is("table.tableblock"):
			add("table", n.Child("caption"))
		case n.Is("div.imageblock"):
			add("figure", n.Child("div.title"))
		case n.Is("div.exampleblock"):
			add("example", n.Child("div.title"))
		}
		return true
	})
	return out
}

func captionCase(src string, exp []string, o lib.Opts) *core.Case {
	desc := fmt.Sprintf("backend=%s source=%q", o.Backend, src)
	if len(o.Attrs) > 0 {
		desc += fmt.Sprintf(" attributes=%v", o.Attrs)
	}
	return &core.Case{Desc: desc, Check: func(r *core.Run) error {
		d, err := lib.DOM(src, o)
		if err != nil {
			return err
		}
		got, e := strings.Join(captions(d), "\n"), strings.Join(exp, "\n")
		r.Outcome(got)
		if got != e {
			return fmt.Errorf("expected the captions\n%s\n, got\n%s", e, got)
		}
		return nil
	}}
}

func init() {
	core.Register(&core.Property{
		ID:          "C24",
		Title:       "Captions of tables, figures and examples are numbered in document order",
		Bounds:      fmt.Sprintf("all sequences of up to 4 (thorough: 5) elements among tables, images and examples with title, without title or with an own caption, declarations and removals of the labels, and sections; all triples of elements, the second one of which in each of %d containers, and in all pairs of nested containers; all combinations of labels from the configuration, the header and the body", len(containers)),
		Assumptions: []string{"captions with counters in the caption attribute are left out (C14)", "labels are not empty"},
		Families: func(tier string) []core.Family {
			n := 0
			if tier == "thorough" {
				n = 1
			}
			return []core.Family{
				{Name: "sequences", Gen: func(g *core.Gen) *core.Case {
					m := newCaptionModel()
					var parts []string
					for i := 0; i < 4+n; i++ {
						op := g.Choose(17)
						if op == 0 {
							break
						}
						if op == 16 {
							parts = append(parts, "== Section "+fmt.Sprint(i))
							continue
						}
						k := captionKinds[(op-1)%3]
						switch (op - 1) / 3 {
						case 0:
							parts = append(parts, m.block(k, "titled"))
						case 1:
							parts = append(parts, m.block(k, "plain"))
						case 2:
							parts = append(parts, m.block(k, "own"))
						case 3:
							l := fmt.Sprintf("Label%d", i)
							parts = append(parts, ":"+k.attr+": "+l)
							m.label[k.name] = l
						case 4:
							parts = append(parts, ":"+k.attr+"!:")
							delete(m.label, k.name)
						}
					}
					src := strings.Join(parts, "\n\n") + "\n"
					g.State(src)
					return captionCase(src, m.exp, lib.Opts{})
				}},
				{Name: "places", Gen: func(g *core.Gen) *core.Case {
					m := newCaptionModel()
					forms := []string{"titled", "named", "attr", "role", "own", "plain"}
					a := m.block(core.PickOf(g, captionKinds), "titled")
					c1 := core.PickOf(g, containers)
					c2 := core.PickOf(g, containers)
					if c2.name == "section" || c1.inList && c2.inList && c2.name != "root" || c1.fence != "" && c1.fence == c2.fence || strings.Contains(c1.name, "a-cell") && c2.name != "root" {
						return g.Skip() // to nest lists, delimiters and cells is the matter of other checks
					}
					if c1.name == "root" && c2.name != "root" {
						return g.Skip()
					}
					for _, c := range []container{c1, c2} {
						// containers which are examples or tables
						for i := 0; i < strings.Count(c.name, "example"); i++ {
							m.exp = append(m.exp, "example:")
						}
						if strings.Contains(c.before, "|===") {
							m.exp = append(m.exp, "table:")
						}
					}
					k := core.PickOf(g, captionKinds)
					if k.name == "table" && (strings.Contains(c1.name, "a-cell") || strings.Contains(c2.name, "a-cell")) {
						return g.Skip()
					}
					b := m.block(k, core.PickOf(g, forms))
					if c1.inList && c2.inList {
						return g.Skip()
					}
					before := strings.ReplaceAll(c1.before+c2.before, "«", "item")
					after := c2.after + c1.after
					src := a + "\n\n" + before + b + after + "\n\n"
					if c1.inList {
						src += "// end of the list\n\n"
					}
					src += m.block(core.PickOf(g, captionKinds), "titled") + "\n"
					g.State(src)
					return captionCase(src, m.exp, lib.Opts{Backend: g.Pick("html5", "xhtml5")})
				}},
				{Name: "labels", Gen: func(g *core.Gen) *core.Case {
					m := newCaptionModel()
					attrs := map[string]interface{}{}
					header, between := "", ""
					k := core.PickOf(g, captionKinds)
					locked := false
					switch g.Pick("", "set") {
					case "set":
						attrs[k.attr] = "Config"
						m.label[k.name] = "Config"
						locked = true
					}
					set := func(where string) string {
						switch g.Pick("", "set", "unset", "unset2", "other") {
						case "set":
							if !locked {
								m.label[k.name] = where
							}
							return ":" + k.attr + ": " + where + "\n"
						case "unset":
							if !locked {
								delete(m.label, k.name)
							}
							return ":" + k.attr + "!:\n"
						case "unset2":
							if !locked {
								delete(m.label, k.name)
							}
							return ":!" + k.attr + ":\n"
						case "other":
							return ":" + k.attr + "s: " + where + "\n"
						}
						return ""
					}
					if title := g.Bool(); title {
						header = "= Title\n"
					}
					header += set("Header")
					sb := &strings.Builder{}
					sb.WriteString(header)
					if header != "" {
						sb.WriteString("\n")
					}
					for i := 0; i < 2+n; i++ {
						for _, k := range captionKinds {
							sb.WriteString(m.block(k, "titled") + "\n\n")
						}
						between = set(fmt.Sprintf("Body%d", i))
						sb.WriteString(between)
						if between != "" {
							sb.WriteString("\n")
						}
					}
					sb.WriteString(m.block(k, "titled") + "\n")
					return captionCase(sb.String(), m.exp, lib.Opts{Attrs: attrs})
				}},
			}
		},
	})
}
