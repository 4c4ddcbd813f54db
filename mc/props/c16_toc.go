package props

import (
	"fmt"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/types"

	"verif/mc/core"
	"verif/mc/lib"
)

// pruned keeps the sections down to the given level.
func pruned(secs []*sec, max int) []*sec {
	r := []*sec{}
	for _, s := range secs {
		if s.level <= max {
			r = append(r, s)
		}
	}
	return r
}

func checkTocList(ul *lib.Node, secs []*sec, max int) error {
	if ul == nil {
		if len(secs) > 0 {
			return fmt.Errorf("no list of entries for the section %q and the next ones", secs[0].title.src)
		}
		return nil
	}
	if len(secs) == 0 {
		return fmt.Errorf("unexpected list of entries: %s", ul.Brief())
	}
	if !ul.HasClass(fmt.Sprintf("sectlevel%d", secs[0].level)) {
		return fmt.Errorf("class %q for a list of entries of level %d", ul.Attrs["class"], secs[0].level)
	}
	items := ul.Children()
	if len(items) != len(secs) {
		return fmt.Errorf("%d entries expected, got %d: %s", len(secs), len(items), ul.Brief())
	}
	for i, s := range secs {
		k := items[i].Children()
		if items[i].Tag != "li" || len(k) == 0 || k[0].Tag != "a" || len(k) > 2 || len(k) == 2 && k[1].Tag != "ul" {
			return fmt.Errorf("wrong entry: %s", items[i].Brief())
		}
		if k[0].Attrs["href"] != "#"+s.id || k[0].Inline() != s.heading() {
			return fmt.Errorf("entry %q to %q expected, got %s", s.heading(), "#"+s.id, k[0].Brief())
		}
		var sub *lib.Node
		if len(k) == 2 {
			sub = k[1]
		}
		if err := checkTocList(sub, pruned(s.kids, max), max); err != nil {
			return err
		}
	}
	return nil
}

// checkTocData compares the table of contents which is returned to the caller
func checkTocData(got []*types.ToCSection, secs []*sec, max int) error {
	if len(got) != len(secs) {
		return fmt.Errorf("metadata: %d entries expected, got %d", len(secs), len(got))
	}
	for i, s := range secs {
		n, err := lib.ParseHTML(got[i].Title)
		if err != nil {
			return fmt.Errorf("metadata: title %q: %w", got[i].Title, err)
		}
		if !strings.EqualFold(got[i].ID, s.id) || got[i].Level != s.level || got[i].Number != s.number || n.Inline() != s.title.text {
			return fmt.Errorf("metadata: entry id=%q level=%d number=%q title=%q for the section %q (id %q, level %d, number %q)", got[i].ID, got[i].Level, got[i].Number, got[i].Title, s.title.src, s.id, s.level, s.number)
		}
		if err := checkTocData(got[i].Children, pruned(s.kids, max), max); err != nil {
			return err
		}
	}
	return nil
}

// tocRoots: the entries of the first level are the sections which have no parent
func checkTocCase(d *secDoc, o lib.Opts, placement string, max int, title string) *core.Case {
	src := d.source()
	d.resolve()
	return &core.Case{
		Desc: fmt.Sprintf("attributes=%v source=%q", o.Attrs, src),
		Check: func(r *core.Run) error {
			out, md, err := lib.Convert(src, o)
			if err != nil {
				return err
			}
			r.Outcome(out)
			n, err := lib.ParseHTML(out)
			if err != nil {
				return err
			}
			b := body(n)
			entries := pruned(d.roots, max)
			var tocs []*lib.Node
			for _, x := range n.All("div") {
				if x.Attrs["id"] == "toc" {
					tocs = append(tocs, x)
				}
			}
			want := 1
			if placement == "none" || len(entries) == 0 || placement == "preamble" && !(d.header && d.preamble) {
				want = 0
			}
			if len(tocs) != want {
				return fmt.Errorf("%d tables of contents expected, got %d\n%s", want, len(tocs), b.Brief())
			}
			if want == 1 {
				t := tocs[0]
				k := t.Children()
				if !t.HasClass("toc") || len(k) != 2 || k[0].Attrs["id"] != "toctitle" || k[0].Inline() != title || k[1].Tag != "ul" {
					return fmt.Errorf("wrong table of contents: %s", t.Brief())
				}
				if placement == "preamble" {
					if t.Up.Attrs["id"] != "preamble" || t.Up.Children()[len(t.Up.Children())-1] != t {
						return fmt.Errorf("the table of contents is not at the end of the preamble\n%s", b.Brief())
					}
				} else if b.Children()[0] != t {
					return fmt.Errorf("the table of contents is not at the beginning\n%s", b.Brief())
				}
				if err := checkTocList(k[1], entries, max); err != nil {
					return fmt.Errorf("%w\n%s", err, t.Brief())
				}
			}
			// the table of contents which the caller gets, whether or not it is in the output
			got := []*types.ToCSection{}
			if md.TableOfContents != nil {
				got = md.TableOfContents.Sections
			}
			return checkTocData(got, entries, max)
		},
	}
}

func init() {
	core.Register(&core.Property{
		ID:    "C16",
		Title: "The table of contents lists exactly the sections, in their hierarchy",
		Bounds: "all sequences of up to 4 sections (thorough: 5) of levels 1 to 5, with and without header and content before the first section, for all placements, depths (in the document or in the configuration), with and without numbers; " +
			"all sequences of up to 3 sections with formatted titles, colliding titles and explicit ids; numbering started and stopped between the sections",
		Families: func(tier string) []core.Family {
			max, n := 4, 2
			if tier == "thorough" {
				max, n = 5, 3
			}
			setup := func(g *core.Gen, all bool) (*secDoc, lib.Opts, string, int, string) {
				d := newSecDoc(g)
				o := lib.Opts{}
				placement, depth, title := "", 2, "Table of Contents"
				p := g.Choose(5)
				switch p {
				case 0:
					d.attrs = append(d.attrs, ":toc:")
				case 1:
					d.attrs, placement = append(d.attrs, ":toc: preamble"), "preamble"
				case 2:
					o.Attrs = map[string]interface{}{"toc": ""}
				case 3:
					o.Attrs, placement = map[string]interface{}{"toc": "preamble"}, "preamble"
				case 4:
					placement = "none"
				}
				if all {
					switch l := g.Choose(7); l {
					case 0:
					case 6:
						depth = 3
						if o.Attrs == nil {
							o.Attrs = map[string]interface{}{}
						}
						o.Attrs["toclevels"] = "3"
						d.attrs = append(d.attrs, ":toclevels: 1")
					default:
						depth = l
						d.attrs = append(d.attrs, fmt.Sprintf(":toclevels: %d", l))
					}
				}
				return d, o, placement, depth, title
			}
			return []core.Family{
				{Name: "structure", Gen: func(g *core.Gen) *core.Case {
					d, o, placement, depth, title := setup(g, true)
					switch g.Choose(3) {
					case 1:
						d.attrs, d.sectnums = append(d.attrs, ":sectnums:"), true
					case 2:
						if o.Attrs == nil {
							o.Attrs = map[string]interface{}{}
						}
						o.Attrs["sectnums"], d.sectnums, d.locked = "", true, true
					}
					d.secs = pickLevels(g, max, 5)
					return checkTocCase(d, o, placement, depth, title)
				}},
				{Name: "titles", Gen: func(g *core.Gen) *core.Case {
					d, o, placement, depth, title := setup(g, false)
					switch g.Choose(3) {
					case 1:
						o.Backend, o.Wrap = "xhtml5", true
					case 2:
						d.attrs, title = append(d.attrs, ":toc-title: In *this*  doc"), "In *this* doc"
					}
					for i := 0; i < n; i++ {
						s := &sec{level: 1 + g.Choose(n)}
						c := g.Choose(len(secTitles) + len(secIDs) - 1)
						if c < len(secTitles) {
							s.title = secTitles[c]
						} else {
							s.title, s.kind = secTitles[0], c-len(secTitles)+1
						}
						d.secs = append(d.secs, s)
					}
					return checkTocCase(d, o, placement, depth, title)
				}},
				{Name: "numbers", Gen: func(g *core.Gen) *core.Case {
					toggles := []string{"", ":sectnums:", ":sectnums!:"}
					d := newSecDoc(g)
					o := lib.Opts{}
					d.attrs = []string{":toc:"}
					switch g.Choose(3) {
					case 1:
						d.attrs, d.sectnums = append(d.attrs, ":sectnums:"), true
					case 2:
						o.Attrs, d.sectnums, d.locked = map[string]interface{}{"numbered": ""}, true, true
					}
					if d.preamble {
						d.toggle = core.PickOf(g, toggles)
					}
					d.secs = pickLevels(g, n+1, 3)
					for _, s := range d.secs {
						s.toggle = core.PickOf(g, toggles)
					}
					c := checkTocCase(d, o, "", 2, "Table of Contents")
					if d.odd {
						return g.Skip()
					}
					return c
				}},
			}
		},
	})
}
