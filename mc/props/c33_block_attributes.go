package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// the kinds of blocks which take a title, an id and roles, with the element that they become
var attributable = []struct{ name, src, sel string }{
	{"paragraph", "«", "div.paragraph"},
	{"admonition-paragraph", "NOTE: «", "div.admonitionblock"},
	{"admonition-block", "[TIP]\n====\n«\n====", "div.admonitionblock"},
	{"literal-paragraph", " «", "div.literalblock"},
	{"literal-style", "[literal]\n«", "div.literalblock"},
	{"literal-block", "....\n«\n....", "div.literalblock"},
	{"listing-block", "----\n«\n----", "div.listingblock"},
	{"listing-style", "[listing]\n«", "div.listingblock"},
	{"source-block", "[source,go]\n----\n«\n----", "div.listingblock"},
	{"source-style", "[source]\n«", "div.listingblock"},
	{"fenced-block", "```\n«\n```", "div.listingblock"},
	{"example-block", "====\n«\n====", "div.exampleblock"},
	{"sidebar-block", "****\n«\n****", "div.sidebarblock"},
	{"quote-block", "____\n«\n____", "div.quoteblock"},
	{"quote-style-block", "[quote,«]\n____\n«\n____", "div.quoteblock"},
	{"quote-paragraph", "[quote]\n«", "div.quoteblock"},
	{"verse-block", "[verse]\n____\n«\n____", "div.verseblock"},
	{"verse-paragraph", "[verse,«]\n«", "div.verseblock"},
	{"markdown-quote", "> «", "div.quoteblock"},
	{"open-block", "--\n«\n--", "div.openblock"},
	{"ulist", "* «\n* «", "div.ulist"},
	{"ulist-checklist", "* [x] «\n* [ ] «", "div.ulist"},
	{"olist", ". «\n. «", "div.olist"},
	{"dlist", "«:: «", "div.dlist"},
	{"dlist-horizontal", "[horizontal]\n«:: «", "div.hdlist"},
	{"dlist-qanda", "[qanda]\n«:: «", "div.qlist"},
	{"table", "|===\n|« |«\n|===", "table"},
	{"image", "image::a.png[«]", "div.imageblock"},
	{"colist", "<1> «", "div.colist"},
	{"section", "== «\n\n«", "div.sect1"},
	{"section-2", "=== «\n\n«", "div.sect2"},
}

// the ways to write an id, roles and a title
var blockAttributeLines = []struct {
	src   string
	id    string
	roles []string
	title string
}{
	{src: ""},
	{src: "[#theid]\n", id: "theid"},
	{src: "[[theid]]\n", id: "theid"},
	{src: "[id=theid]\n", id: "theid"},
	{src: "[.r1]\n", roles: []string{"r1"}},
	{src: "[.r1.r2]\n", roles: []string{"r1", "r2"}},
	{src: "[role=r1]\n", roles: []string{"r1"}},
	{src: "[role=\"r1 r2\"]\n", roles: []string{"r1", "r2"}},
	{src: "[#theid.r1]\n", id: "theid", roles: []string{"r1"}},
	{src: ".ti *tle*\n", title: "ti tle"},
	{src: ".ti *tle*\n[.r1]\n[#theid]\n", id: "theid", roles: []string{"r1"}, title: "ti tle"},
	{src: "[#theid]\n.ti *tle*\n[.r1]\n", id: "theid", roles: []string{"r1"}, title: "ti tle"},
	{src: "[[theid]]\n[.r1.r2]\n.ti *tle*\n", id: "theid", roles: []string{"r1", "r2"}, title: "ti tle"},
	{src: "[#theid,role=r1]\n", id: "theid", roles: []string{"r1"}},
	{src: "[.r1]\n[.r2]\n", roles: []string{"r1", "r2"}},
}

func rolesOf(n *lib.Node) []string {
	r := []string{}
	for _, f := range strings.Fields(n.Attrs["class"]) {
		if f == "r1" || f == "r2" {
			r = append(r, f)
		}
	}
	return r
}

func titlesIn(n *lib.Node) []*lib.Node {
	r := []*lib.Node{}
	n.Walk(func(m *lib.Node) bool {
		if m != n && (m.Is("div.title") || m.Is("caption")) && m.First("strong") != nil {
			r = append(r, m)
		}
		return true
	})
	return r
}

func checkBlockAttributes(src, sel string, idx int, ids []string, roles [][]string, titles []string, o lib.Opts) func(r *core.Run) error {
	return func(r *core.Run) error {
		d, err := lib.DOM(src, o)
		if err != nil {
			return err
		}
		r.Outcome(d.Canon())
		if o.Wrap {
			for _, x := range d.All("div") {
				if x.Attrs["id"] == "content" {
					d = x
				}
			}
		}
		bs := d.All(sel)
		if len(bs) != len(ids) {
			return fmt.Errorf("%d elements %s expected, got %d\n%s", len(ids), sel, len(bs), d.Brief())
		}
		for i, b := range bs {
			// id
			id := b.Attrs["id"]
			if strings.HasPrefix(sel, "div.sect") {
				if h := b.Children(); len(h) > 0 {
					id = h[0].Attrs["id"]
				}
				if ids[i] == "" && id == "theid" {
					return fmt.Errorf("the section has an id which is not its own\n%s", d.Brief())
				}
				if ids[i] == "" {
					id = ""
				}
			}
			if id != ids[i] {
				return fmt.Errorf("the id of the element is %q, expected %q\n%s", id, ids[i], d.Brief())
			}
			if got := rolesOf(b); strings.Join(got, " ") != strings.Join(roles[i], " ") {
				return fmt.Errorf("the roles of the element are %q, expected %q\n%s", got, roles[i], d.Brief())
			}
			ts := titlesIn(b)
			if titles[i] == "" && len(ts) > 0 || titles[i] != "" && len(ts) != 1 && !strings.HasPrefix(sel, "div.sect") {
				return fmt.Errorf("%d titles in the element, expected %q\n%s", len(ts), titles[i], d.Brief())
			}
			for _, t := range ts {
				if !strings.HasSuffix(t.Inline(), titles[i]) {
					return fmt.Errorf("the title is %q, expected %q\n%s", t.Inline(), titles[i], d.Brief())
				}
			}
		}
		n, rs, ts := 0, 0, len(titlesIn(d))
		d.Walk(func(m *lib.Node) bool {
			if m.Attrs["id"] == "theid" {
				n++
			}
			rs += len(rolesOf(m))
			return true
		})
		en, er, et := 0, 0, 0
		for i := range ids {
			if ids[i] != "" {
				en++
			}
			er += len(roles[i])
			if titles[i] != "" && !strings.HasPrefix(sel, "div.sect") {
				et++
			}
		}
		if n != en || rs != er || ts != et {
			return fmt.Errorf("the id, roles and titles also appear elsewhere (%d, %d, %d; expected %d, %d, %d)\n%s", n, rs, ts, en, er, et, d.Brief())
		}
		return nil
	}
}

func init() {
	core.Register(&core.Property{
		ID:          "C33",
		Title:       "The title, id and roles of a block apply to it, and to it only",
		Bounds:      "all kinds of blocks, with all ways to write a title, an id and roles, alone or followed by another block of the same kind (with or without attributes), at the root or in an example block",
		Assumptions: []string{},
		Families: func(tier string) []core.Family {
			return []core.Family{
				{Name: "attributes", Gen: func(g *core.Gen) *core.Case {
					a := core.PickOf(g, attributable)
					in := g.Pick("", "=====\n", "* item\n+\n--\n")
					if in != "" && strings.HasPrefix(a.sel, "div.sect") || in != "" && (a.sel == "div.exampleblock" || strings.Contains(in, "--") && (a.name == "ulist" || a.name == "open-block" || a.name == "ulist-checklist")) {
						return g.Skip()
					}
					o := core.PickOf(g, composeOpts)
					l1 := core.PickOf(g, blockAttributeLines)
					l2 := core.PickOf(g, blockAttributeLines[:2])
					two := g.Bool()
					if !two && l2.src != "" || two && l2.id != "" && l1.id != "" {
						return g.Skip()
					}
					src := in + l1.src + a.src
					ids, roles, titles := []string{l1.id}, [][]string{l1.roles}, []string{l1.title}
					if two {
						src += "\n\n//\n\n" + l2.src + a.src
						if strings.Contains(a.sel, "list") {
							src = in + l1.src + a.src + "\n\n'''\n\n" + l2.src + a.src
						}
						ids, roles, titles = append(ids, l2.id), append(roles, l2.roles), append(titles, l2.title)
					}
					if in == "=====\n" {
						src += "\n====="
					} else if in != "" {
						src += "\n--"
					}
					s, _, _ := fill(src+"\n", "A")
					return &core.Case{Desc: fmt.Sprintf("backend=%s source=%q", o.Backend, s), Check: checkBlockAttributes(s, a.sel, 0, ids, roles, titles, o)}
				}},
			}
		},
	})
}
