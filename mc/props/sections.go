package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// secTitle is a title of section: its source, its text, the words of its automatic id.
type secTitle struct{ src, text, slug string }

var secTitles = []secTitle{
	{"Foo", "Foo", "foo"},
	{"foo", "foo", "foo"},
	{"Foo 2", "Foo 2", "foo 2"},
	{"Foo bar", "Foo bar", "foo bar"},
	{"Foo *bar* baz", "Foo bar baz", "foo bar baz"},
	{"Foo-bar", "Foo-bar", "foo bar"},
	{"`Foo`", "Foo", "foo"},
	{"Été", "Été", "été"},
	{"Foo: bar!", "Foo: bar!", "foo bar"},
}

// ways to give an id: what comes before the section, what comes after the title, the id
var secIDs = []struct{ before, after, id string }{
	{},
	{before: "[#xid]\n", id: "xid"},
	{before: "[[xid]]\n", id: "xid"},
	{before: "[id=xid]\n", id: "xid"},
	{after: " [[xid]]", id: "xid"},
	{before: "[#Xid.role]\n", id: "xid"},
	{before: "[#_foo]\n", id: "_foo"},
	{before: "[#_foo_2]\n", id: "_foo_2"},
}

// sec is a section of the model of the document.
type sec struct {
	level  int
	title  secTitle
	kind   int    // in secIDs
	toggle string // attribute entry before the section
	// computed
	id, number string
	numbered   bool
	kids       []*sec
	up         *sec
	text       string
}

// secDoc is the model of a document made of sections.
type secDoc struct {
	header   bool
	attrs    []string // attribute entries of the header
	preamble bool
	toggle   string // attribute entry in the preamble
	secs     []*sec
	prefix   string
	sep      string
	sectnums bool // initially
	locked   bool // set by the configuration
	roots    []*sec
	odd      bool // a numbered section whose parent has no number
}

func (d *secDoc) source() string {
	sb := &strings.Builder{}
	if d.header {
		sb.WriteString("= Doc\n")
	}
	for _, a := range d.attrs {
		sb.WriteString(a + "\n")
	}
	sb.WriteString("\n")
	if d.preamble {
		sb.WriteString("prel\n\n")
	}
	if d.toggle != "" {
		sb.WriteString(d.toggle + "\n\n")
	}
	for i, s := range d.secs {
		if s.toggle != "" {
			sb.WriteString(s.toggle + "\n\n")
		}
		k := secIDs[s.kind]
		fmt.Fprintf(sb, "%s%s %s%s\n\n", k.before, strings.Repeat("=", s.level+1), s.title.src, k.after)
		s.text = fmt.Sprintf("p%d", i)
		sb.WriteString(s.text + "\n\n")
	}
	return sb.String()
}

func toggled(on, locked bool, t string) bool {
	switch {
	case locked || t == "":
		return on
	default:
		return !strings.Contains(t, "!")
	}
}

// resolve computes the tree, the ids and the numbers.
func (d *secDoc) resolve() {
	used := map[string]bool{}
	var last *sec
	on := toggled(d.sectnums, d.locked, d.toggle)
	counters := map[*sec]int{}
	for _, s := range d.secs {
		on = toggled(on, d.locked, s.toggle)
		p := last
		for p != nil && p.level >= s.level {
			p = p.up
		}
		s.up = p
		if p == nil {
			d.roots = append(d.roots, s)
		} else {
			p.kids = append(p.kids, s)
		}
		last = s
		base := secIDs[s.kind].id
		if base == "" {
			base = d.prefix + strings.ReplaceAll(s.title.slug, " ", d.sep)
		}
		s.id = base
		for i := 2; used[s.id]; i++ {
			s.id = fmt.Sprintf("%s_%d", base, i)
		}
		used[s.id] = true
		if on {
			counters[p]++
			s.numbered = true
			s.number = fmt.Sprint(counters[p])
			if p != nil {
				s.number = p.number + "." + s.number
				if !p.numbered {
					d.odd = true
				}
			}
		}
	}
}

func (s *sec) heading() string {
	if s.numbered {
		return s.number + ". " + s.title.text
	}
	return s.title.text
}

// body returns the element in which the body of the document is.
func body(n *lib.Node) *lib.Node {
	for _, x := range n.All("div") {
		if x.Attrs["id"] == "content" {
			return x
		}
	}
	return n
}

// checkSections compares the children of the node with the sections of the model.
func checkSections(n *lib.Node, secs []*sec) error {
	got := []*lib.Node{}
	for _, c := range n.Children() {
		if strings.HasPrefix(c.Attrs["class"], "sect") && c.Tag == "div" && !c.HasClass("sectionbody") {
			got = append(got, c)
		}
	}
	if len(got) != len(secs) {
		return fmt.Errorf("%d sections expected in this place, got %d", len(secs), len(got))
	}
	for i, s := range secs {
		g := got[i]
		if !g.HasClass(fmt.Sprintf("sect%d", s.level)) {
			return fmt.Errorf("section %q: level %d expected, got class %q", s.title.src, s.level, g.Attrs["class"])
		}
		if (s.kind == 5) != g.HasClass("role") {
			return fmt.Errorf("section %q: unexpected roles: %q", s.title.src, g.Attrs["class"])
		}
		k := g.Children()
		if len(k) == 0 || k[0].Tag != fmt.Sprintf("h%d", s.level+1) {
			return fmt.Errorf("section %q: no heading h%d", s.title.src, s.level+1)
		}
		if k[0].Attrs["id"] != s.id {
			return fmt.Errorf("section %q: id %q expected, got %q", s.title.src, s.id, k[0].Attrs["id"])
		}
		if k[0].Inline() != s.heading() {
			return fmt.Errorf("section %q: heading %q expected, got %q", s.title.src, s.heading(), k[0].Inline())
		}
		in := g
		if s.level == 1 {
			if len(k) != 2 || !k[1].Is("div.sectionbody") {
				return fmt.Errorf("section %q: no section body", s.title.src)
			}
			in = k[1]
		}
		var p []string
		for _, c := range in.Children() {
			if c.Is("div.paragraph") {
				p = append(p, c.Inline())
			}
		}
		if strings.Join(p, " ") != s.text {
			return fmt.Errorf("section %q: content %q expected, got %q", s.title.src, s.text, p)
		}
		if err := checkSections(in, s.kids); err != nil {
			return err
		}
	}
	return nil
}

func uniqueIDs(n *lib.Node) error {
	seen := map[string]bool{}
	for _, id := range n.IDs() {
		if seen[id] {
			return fmt.Errorf("id %q is used twice", id)
		}
		seen[id] = true
	}
	return nil
}

// checkSectionsDoc: the sections, ids, numbers and the preamble
func checkSectionsDoc(d *secDoc, o lib.Opts) *core.Case {
	src := d.source()
	d.resolve()
	return &core.Case{
		Desc: fmt.Sprintf("attributes=%v source=%q", o.Attrs, src),
		Check: func(r *core.Run) error {
			n, err := lib.DOM(src, o)
			if err != nil {
				return err
			}
			r.Outcome(n.Canon())
			b := body(n)
			if err := checkSections(b, d.roots); err != nil {
				return fmt.Errorf("%w\n%s", err, b.Brief())
			}
			if err := uniqueIDs(n); err != nil {
				return fmt.Errorf("%w\n%s", err, b.Brief())
			}
			return checkPreamble(b, d)
		},
	}
}

func checkPreamble(b *lib.Node, d *secDoc) error {
	var pre *lib.Node
	for _, c := range b.Children() {
		if c.Attrs["id"] == "preamble" {
			pre = c
		}
	}
	want := d.header && d.preamble && len(d.secs) > 0
	if want != (pre != nil) {
		return fmt.Errorf("preamble: expected %v\n%s", want, b.Brief())
	}
	if pre != nil {
		if s := pre.Child("div.sectionbody"); s == nil || s.Inline() != "prel" {
			return fmt.Errorf("wrong content of the preamble\n%s", b.Brief())
		}
	}
	if d.preamble && pre == nil {
		for _, c := range b.Children() {
			if c.Is("div.paragraph") && c.Inline() == "prel" {
				return nil
			}
		}
		return fmt.Errorf("the content before the first section is missing\n%s", b.Brief())
	}
	return nil
}

func pickLevels(g *core.Gen, max, levels int) []*sec {
	n := g.Choose(max) + 1
	r := []*sec{}
	for i := 0; i < n; i++ {
		r = append(r, &sec{level: 1 + g.Choose(levels), title: secTitle{fmt.Sprintf("S%d", i), fmt.Sprintf("S%d", i), fmt.Sprintf("s%d", i)}})
	}
	return r
}

func newSecDoc(g *core.Gen) *secDoc {
	d := &secDoc{prefix: "_", sep: "_"}
	switch g.Choose(4) {
	case 1:
		d.header = true
	case 2:
		d.header, d.preamble = true, true
	case 3:
		d.preamble = true
	}
	return d
}

func init() {
	core.Register(&core.Property{
		ID:    "C15",
		Title: "Sections nest by level, with unique ids and right numbers",
		Bounds: "all sequences of up to 4 sections (thorough: 6) of levels 1 to 5, with and without header, content before the first section and numbering; all sequences of up to 3 sections with 9 titles which collide or 8 ways to give an id, " +
			"with 5 settings of prefix and separator; all positions of the attributes which start and stop the numbering around up to 4 sections; numbering set by the configuration; sequences of up to 15 (thorough: 120) sections which repeat 6 patterns of levels and 4 of titles",
		Assumptions: []string{"documents in which a section that is numbered has a parent which is not are excluded"},
		Families: func(tier string) []core.Family {
			max, ids, nums := 4, 2, 3
			if tier == "thorough" {
				max, ids, nums = 6, 3, 4
			}
			return []core.Family{
				{Name: "structure", Gen: func(g *core.Gen) *core.Case {
					d := newSecDoc(g)
					if g.Bool() {
						d.attrs, d.sectnums = []string{":sectnums:"}, true
					}
					o := lib.Opts{Backend: g.Pick("html5", "xhtml5"), Wrap: g.Bool()}
					d.secs = pickLevels(g, max, 5)
					return checkSectionsDoc(d, o)
				}},
				{Name: "ids", Gen: func(g *core.Gen) *core.Case {
					d := newSecDoc(g)
					switch g.Choose(5) {
					case 1:
						d.attrs, d.prefix = []string{":idprefix: pre-"}, "pre-"
					case 2:
						d.attrs, d.prefix, d.sep = []string{":idprefix:", ":idseparator: -"}, "", "-"
					case 3:
						d.attrs, d.sep = []string{":idseparator:"}, ""
					case 4:
						d.attrs, d.sep = []string{":idseparator: -"}, "-"
					}
					n := ids
					if len(d.attrs) == 0 && !d.header {
						n++
					}
					for i := 0; i < n; i++ {
						s := &sec{level: 1 + g.Choose(2)}
						c := g.Choose(len(secTitles) + len(secIDs) - 1)
						if c < len(secTitles) {
							s.title = secTitles[c]
						} else {
							s.title, s.kind = secTitles[0], c-len(secTitles)+1
						}
						d.secs = append(d.secs, s)
					}
					return checkSectionsDoc(d, lib.Opts{})
				}},
				{Name: "numbers", Gen: func(g *core.Gen) *core.Case {
					toggles := []string{"", ":sectnums:", ":sectnums!:", ":numbered:", ":!numbered:"}
					d := newSecDoc(g)
					o := lib.Opts{}
					switch g.Choose(5) {
					case 1:
						d.attrs, d.sectnums = []string{":sectnums:"}, true
					case 4:
						o.Attrs, d.sectnums, d.locked = map[string]interface{}{"numbered": ""}, true, true
					case 2:
						d.attrs, d.sectnums = []string{":numbered:"}, true
					case 3:
						o.Attrs, d.sectnums, d.locked = map[string]interface{}{"sectnums": ""}, true, true
					}
					if d.preamble {
						d.toggle = core.PickOf(g, toggles)
					}
					d.secs = pickLevels(g, nums, 2)
					for _, s := range d.secs {
						s.toggle = core.PickOf(g, toggles)
					}
					c := checkSectionsDoc(d, o)
					if d.odd {
						return g.Skip()
					}
					return c
				}},
				{Name: "many", Gen: func(g *core.Gen) *core.Case {
					// long sequences: the n-th section with the same title, the n-th number
					d := newSecDoc(g)
					if g.Bool() {
						d.attrs, d.sectnums = []string{":sectnums:"}, true
					}
					most := 15
					if tier == "thorough" {
						most = 120
					}
					n := 1 + g.Choose(most)
					levels := core.PickOf(g, [][]int{{1}, {1, 2}, {1, 2, 2}, {1, 2, 3, 2}, {1, 2, 3, 4, 5}, {1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2}})
					titles := core.PickOf(g, [][]int{{0}, {0, 1}, {0, 1, 2}, {1, 0, 0, 2}})
					for i := 0; i < n; i++ {
						d.secs = append(d.secs, &sec{level: levels[i%len(levels)], title: secTitles[titles[i%len(titles)]]})
					}
					return checkSectionsDoc(d, lib.Opts{})
				}},
			}
		},
	})
}
