package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// kidsCanon is the canonical form of the children of the node.
func kidsCanon(n *lib.Node) string {
	c := n.Canon()
	i := strings.Index(c, ">")
	return strings.TrimSuffix(c[i+1:], "</"+n.Tag+">")
}

// contentOf finds where the blocks of the container end up in the output.
func contentOf(c container, d *lib.Node) *lib.Node {
	path := map[string][]string{
		"example":            {"div.exampleblock", "div.content"},
		"sidebar":            {"div.sidebarblock", "div.content"},
		"quote":              {"div.quoteblock", "blockquote"},
		"open":               {"div.openblock", "div.content"},
		"admonition":         {"div.admonitionblock", "table", "tr", "td.content"},
		"ulist":              {"div.ulist", "ul", "li"},
		"ulist-2":            {"div.ulist", "ul", "li", "div.ulist", "ul", "li"},
		"olist":              {"div.olist", "ol", "li"},
		"dlist":              {"div.dlist", "dl", "dd"},
		"dlist-second":       {"div.dlist", "dl", "dd", "div.dlist", "dl", "dd$"},
		"colist-second":      {"div.colist", "ol", "li$"},
		"section":            {"div.sect1", "div.sectionbody"},
		"a-cell":             {"table", "tbody", "tr", "td", "div.content"},
		"example-in-example": {"div.exampleblock", "div.content", "div.exampleblock", "div.content"},
		"open-in-list":       {"div.ulist", "ul", "li", "div.openblock", "div.content"},
	}
	for _, p := range path[c.name] {
		var all []*lib.Node
		for _, k := range d.Children() {
			if k.Is(strings.TrimSuffix(p, "$")) {
				all = append(all, k)
			}
		}
		if len(all) == 0 {
			return nil
		}
		if d = all[0]; strings.HasSuffix(p, "$") { // the last one
			d = all[len(all)-1]
		}
	}
	return d
}

// firstParagraphs drops what belongs to the list item itself (its first paragraph).
func withoutItemText(c container, n *lib.Node) string {
	s := kidsCanon(n)
	if c.inList && c.name != "dlist" {
		i := strings.Index(s, "</p>")
		if i < 0 {
			return s
		}
		return s[i+len("</p>"):]
	}
	return s
}

func localityContainers() core.Family {
	return core.Family{Name: "block-in-container", Gen: func(g *core.Gen) *core.Case {
		c := core.PickOf(g, containers[1:])
		b, ok := pickBlock(g, c)
		if !ok || b.has(fPending|fFootnote|fSection|fAttr) || c.name == "ulist-ancestor" {
			return g.Skip()
		}
		s, _, _ := fill(b.src, "A")
		if c.name == "dlist" && b.has(fPlain) {
			return g.Skip() // a plain paragraph is the text of the element
		}
		if c.fence == "|===" && (b.has(fPlain|fNothing) || strings.HasPrefix(b.name, "paragraph") || b.name == "lead") {
			return g.Skip() // a plain paragraph is the text of the cell
		}
		src := strings.ReplaceAll(c.before, "«", "item") + s + c.after + "\n"
		return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
			alone, err := lib.DOM(s, lib.Opts{})
			if err != nil {
				return err
			}
			in, err := lib.DOM(src, lib.Opts{})
			if err != nil {
				return err
			}
			n := contentOf(c, in)
			if n == nil {
				return fmt.Errorf("no %s in the output\n%s", c.name, in.Brief())
			}
			exp, got := kidsCanon(alone), withoutItemText(c, n)
			r.Outcome(got)
			if exp != got {
				return fmt.Errorf("the block is rendered differently in the %s: expected\n%s\ngot\n%s", c.name, exp, got)
			}
			return nil
		}}
	}}
}

// out(A + separator + B) = out(A) + out(separator) + out(B)
func localityPairs(name, sep, out string, in []container) core.Family {
	return core.Family{Name: name, Gen: func(g *core.Gen) *core.Case {
		c := core.PickOf(g, in)
		a, ok1 := pickBlock(g, c)
		b, ok2 := pickBlock(g, c)
		if !ok1 || !ok2 {
			return g.Skip()
		}
		const never = fPending | fFootnote | fSection | fAttr | fToc
		if a.has(never) || b.has(never) || a.has(fCaption) && b.has(fCaption) {
			return g.Skip()
		}
		if out == "" && (a.has(fList) && (b.has(fList|fNothing) || strings.HasPrefix(b.src, " ")) || a.has(fNothing) && b.has(fNothing)) {
			return g.Skip() // lists merge, and literal paragraphs belong to the list which precedes
		}
		s1, _, _ := fill(a.src, "A")
		s2, _, _ := fill(b.src, "B")
		src := strings.ReplaceAll(c.before, "«", "item") + s1 + sep + s2 + c.after + "\n"
		return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
			d1, err := lib.DOM(s1, lib.Opts{})
			if err != nil {
				return err
			}
			d2, err := lib.DOM(s2, lib.Opts{})
			if err != nil {
				return err
			}
			d, err := lib.DOM(src, lib.Opts{})
			if err != nil {
				return err
			}
			n := d
			if c.name != "root" {
				if n = contentOf(c, d); n == nil {
					return fmt.Errorf("no %s in the output\n%s", c.name, d.Brief())
				}
			}
			exp, got := kidsCanon(d1)+out+kidsCanon(d2), kidsCanon(n)
			r.Outcome(got)
			if exp != got {
				return fmt.Errorf("the output is not the one of the two blocks: expected\n%s\ngot\n%s", exp, got)
			}
			return nil
		}}
	}}
}

func init() {
	core.Register(&core.Property{
		ID:          "C26",
		Title:       "A block is rendered the same wherever it stands",
		Bounds:      "all blocks of the corpus in all containers, all pairs of blocks at the root, separated by a thematic break or by a blank line; thorough: all pairs in the other containers",
		Assumptions: []string{"excluded because their meaning depends on the rest of the document: footnotes, sections, captions of both, attributes, counters, tables of contents, and a list next to another list"},
		Families: func(tier string) []core.Family {
			roots := []container{}
			for _, c := range containers {
				if c.name == "example" || c.name == "sidebar" || c.name == "quote" || c.name == "open" || c.name == "admonition" || c.name == "example-in-example" || c.name == "open-in-list" || c.name == "section" {
					roots = append(roots, c)
				}
			}
			f := []core.Family{
				localityContainers(),
				localityPairs("thematic-break", "\n\n'''\n\n", "<hr></hr>", containers[:1]),
				localityPairs("blank-line", "\n\n", "", containers[:1]),
			}
			if tier == "thorough" {
				f = append(f, localityPairs("blank-line-in-containers", "\n\n", "", roots), localityPairs("thematic-break-in-containers", "\n\n'''\n\n", "<hr></hr>", roots))
			}
			return f
		},
	})
}
