package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// The reference model of lists: a machine which reads a document line by line, and keeps the stack of the lists
// that are open.
type (
	lblock interface{ canon() string }
	lpara  struct{ lines []string }
	lverb  struct{ text string }
	llist  struct {
		kind   byte // u, o or d
		marker string
		style  string
		items  []*litem
	}
	litem struct {
		term   string
		mark   string // checked or not
		blocks []lblock
	}
)

func (p *lpara) canon() string { return "p(" + strings.Join(p.lines, " ") + ")" }
func (v *lverb) canon() string { return "v(" + v.text + ")" }
func (l *llist) canon() string {
	s := string(l.kind) + l.style + "["
	for _, i := range l.items {
		if l.kind == 'd' {
			s += "{" + i.term + "}"
			if len(i.blocks) == 0 {
				continue
			}
		}
		s += "(" + i.mark + canons(i.blocks) + ")"
	}
	return s + "]"
}

func canons(bs []lblock) string {
	s := ""
	for _, b := range bs {
		s += b.canon()
	}
	return s
}

type listMachine struct {
	root    []lblock
	stack   []*llist
	para    *lpara // which takes the next line of text
	blank   int    // number of blank lines just before
	plus    int    // number of levels to go up for the next attached block (-1: none)
	term    bool   // the current item is a term which has no description yet
	style   map[string]string
	skipped bool // a comment was read after a continuation or a term
	failed  bool // out of the scope of the model
}

func newListMachine() *listMachine { return &listMachine{plus: -1} }

func (m *listMachine) item() *litem {
	l := m.stack[len(m.stack)-1]
	return l.items[len(l.items)-1]
}

func (m *listMachine) end() {
	m.stack, m.plus, m.para, m.term = nil, -1, nil, false
}

var bulletOrder = []string{"-", "*", "**", "***", "****", "*****"}

// listItem reads the first line of an item.
func (m *listMachine) listItem(kind byte, marker, style string, it *litem) {
	if len(m.stack) == 0 && m.para != nil {
		m.failed = true // a paragraph goes on
		return
	}
	m.blank, m.plus = 0, -1
	m.para, m.term, m.skipped = nil, false, false
	if kind == 'd' && len(it.blocks) == 0 {
		m.term = true
	} else if len(it.blocks) > 0 {
		m.para = it.blocks[0].(*lpara)
	}
	for i := len(m.stack) - 1; i >= 0; i-- {
		if m.stack[i].kind == kind && m.stack[i].marker == marker {
			m.stack = m.stack[:i+1]
			m.stack[i].items = append(m.stack[i].items, it)
			return
		}
	}
	l := &llist{kind: kind, marker: marker, style: style, items: []*litem{it}}
	if len(m.stack) == 0 {
		m.root = append(m.root, l)
	} else {
		if top := m.stack[len(m.stack)-1]; top.kind == 'u' && kind == 'u' {
			// the library takes the style which follows the one of the parent: only the markers for which this makes no difference
			for i, b := range bulletOrder {
				if b == top.marker && (i+1 == len(bulletOrder) || bulletOrder[i+1] != marker) {
					m.failed = true
				}
			}
		}
		parent := m.item()
		parent.blocks = append(parent.blocks, l)
	}
	m.stack = append(m.stack, l)
}

// attachPoint returns the item to which the next block is attached, if there is a list continuation
func (m *listMachine) attachPoint() *litem {
	if m.plus < 0 {
		return nil
	}
	n := len(m.stack) - m.plus
	if n < 1 {
		n = 1
	}
	m.stack = m.stack[:n]
	m.plus, m.blank, m.term = -1, 0, false
	return m.item()
}

func (m *listMachine) text(t string) {
	if len(m.stack) > 0 {
		if it := m.attachPoint(); it != nil {
			m.para = &lpara{lines: []string{t}}
			it.blocks = append(it.blocks, m.para)
			return
		}
		if m.blank == 0 || m.term {
			m.term, m.blank = false, 0
			if m.para == nil {
				m.para = &lpara{}
				m.item().blocks = append(m.item().blocks, m.para)
			}
			m.para.lines = append(m.para.lines, t)
			return
		}
		m.end()
	}
	m.blank = 0
	if m.para == nil {
		m.para = &lpara{}
		m.root = append(m.root, m.para)
	}
	m.para.lines = append(m.para.lines, t)
}

func (m *listMachine) verbatim(t string) {
	if len(m.stack) > 0 {
		if m.skipped && m.plus < 0 && m.term {
			m.failed = true
			return
		}
		it := m.attachPoint()
		m.para = nil
		if it != nil {
			it.blocks = append(it.blocks, &lverb{t})
			return
		}
		m.end()
	}
	m.blank, m.para = 0, nil
	m.root = append(m.root, &lverb{t})
}

func (m *listMachine) blankLine() {
	if m.skipped && m.plus < 0 && m.term {
		m.failed = true
		return
	}
	if m.plus >= 0 {
		return // ignored after a list continuation
	}
	m.blank++
	m.para = nil
}

func (m *listMachine) continuation() {
	if len(m.stack) == 0 || m.plus >= 0 || m.term && m.blank > 0 {
		m.failed = true
		return
	}
	m.plus = m.blank
	m.blank, m.skipped = 0, false
	m.para = nil
}

func (m *listMachine) comment() {
	if m.plus >= 0 || m.term {
		m.blank, m.skipped = 0, true
		return
	}
	if m.blank > 0 && len(m.stack) > 0 {
		m.end()
	}
	m.blank = 0
}

// listsCanon reads the blocks of the output.
func listsCanon(ns []*lib.Node) string {
	s := ""
	for _, n := range ns {
		switch {
		case n.Is("p"):
			s += "p(" + n.Inline() + ")"
		case n.Is("div.paragraph"):
			s += listsCanon(n.Children())
		case n.Is("div.listingblock"):
			s += "v(" + n.Inline() + ")"
		case n.Is("div.ulist"), n.Is("div.olist"):
			kind, style, tag := "u", "", "ul"
			if n.Is("div.olist") {
				kind, tag = "o", "ol"
				if k := n.Children(); len(k) == 1 && n.Attrs["class"] == "olist "+k[0].Attrs["class"] {
					style = k[0].Attrs["class"]
				}
			}
			s += kind + style + "["
			for _, l := range n.Children() {
				for _, li := range l.Children() {
					if l.Tag != tag || li.Tag != "li" {
						s += "?" + l.Brief()
					}
					s += "(" + listsCanon(li.Children()) + ")"
				}
			}
			s += "]"
		case n.Is("div.dlist"):
			s += "d["
			for _, l := range n.Children() {
				for _, k := range l.Children() {
					switch k.Tag {
					case "dt":
						s += "{" + k.Inline() + "}"
					case "dd":
						s += "(" + listsCanon(k.Children()) + ")"
					default:
						s += "?" + k.Brief()
					}
				}
			}
			s += "]"
		default:
			s += "?" + n.Brief()
		}
	}
	return s
}

func listCase(m *listMachine, src string) *core.Case {
	exp := canons(m.root)
	return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
		d, err := lib.DOM(src, lib.Opts{})
		if err != nil {
			return err
		}
		got := listsCanon(body(d).Children())
		r.Outcome(got)
		if got != exp {
			return fmt.Errorf("the lists are not as expected: expected\n%s\ngot\n%s", exp, got)
		}
		return nil
	}}
}

// listOps: a line (or a block) of the alphabet
var listMarkers = map[string]struct {
	kind          byte
	marker, style string
}{
	"-": {'u', "-", ""}, "*": {'u', "*", ""}, "**": {'u', "**", ""}, "***": {'u', "***", ""}, "****": {'u', "****", ""}, "*****": {'u', "*****", ""},
	".": {'o', "arabic", "arabic"}, "..": {'o', "loweralpha", "loweralpha"}, "...": {'o', "lowerroman", "lowerroman"}, "....": {'o', "upperalpha", "upperalpha"}, ".....": {'o', "upperroman", "upperroman"},
	"1.": {'o', "arabic", "arabic"}, "a.": {'o', "loweralpha", "loweralpha"}, "i)": {'o', "lowerroman", "lowerroman"}, "A.": {'o', "upperalpha", "upperalpha"}, "I)": {'o', "upperroman", "upperroman"},
	"::": {'d', "::", ""}, ":::": {'d', ":::", ""}, "::::": {'d', "::::", ""},
}

// step adds a line to the source, and feeds the model with it.
func (m *listMachine) step(op string, n int) string {
	t := fmt.Sprintf("t%d", n)
	switch op {
	case "text":
		m.text(t)
		return t + "\n"
	case "blank":
		m.blankLine()
		return "\n"
	case "+":
		m.continuation()
		return "+\n"
	case "//":
		m.comment()
		return "// " + t + "\n"
	case "----":
		m.verbatim(t)
		return "----\n" + t + "\n----\n"
	}
	prefix := ""
	if i := strings.LastIndexAny(op, " \t"); i >= 0 { // indentation
		prefix, op = op[:i+1], op[i+1:]
	}
	short := strings.HasSuffix(op, "!") // a term without a description
	k := listMarkers[strings.TrimSuffix(op, "!")]
	it := &litem{blocks: []lblock{&lpara{lines: []string{t}}}}
	if k.kind == 'd' {
		it.term = "k" + t
		if short {
			it.blocks = nil
			m.listItem(k.kind, k.marker, k.style, it)
			return prefix + it.term + k.marker + "\n"
		}
		m.listItem(k.kind, k.marker, k.style, it)
		return prefix + it.term + k.marker + " " + t + "\n"
	}
	m.listItem(k.kind, k.marker, k.style, it)
	return prefix + op + " " + t + "\n"
}

// listSequences: all sequences of up to n of the given lines
func listSequences(name string, n int, first []string, ops []string) core.Family {
	return core.Family{Name: name, Gen: func(g *core.Gen) *core.Case {
		m := newListMachine()
		src := ""
		for i := 0; i < n; i++ {
			var op string
			if i == 0 {
				op = core.PickOf(g, first)
			} else {
				k := g.Choose(len(ops) + 1)
				if k == 0 {
					break
				}
				op = ops[k-1]
			}
			src += m.step(op, i)
			if m.failed {
				return g.Skip()
			}
		}
		if strings.HasSuffix(src, "\n\n") || len(m.stack) > 0 && m.plus >= 0 && m.blank > 0 {
			return g.Skip() // trailing blank lines
		}
		g.State(src)
		return listCase(m, src)
	}}
}

// checklists: marks of the items of the (possibly interactive) checklists
func listChecklists(n int) core.Family {
	return core.Family{Name: "checklists", Gen: func(g *core.Gen) *core.Case {
		interactive := g.Bool()
		src := ""
		if interactive {
			src = "[%interactive]\n"
		}
		type exp struct {
			text  string
			check int // 0: none, 1: checked, 2: not checked
			inter bool
		}
		var exps []exp
		for i := 0; i < n; i++ {
			k := g.Choose(9)
			if k == 0 && i > 0 {
				break
			}
			if k == 0 || i == 0 && k > 4 {
				return g.Skip()
			}
			k--
			deep := k >= 4
			e := exp{text: fmt.Sprintf("t%d", i), inter: interactive && !deep}
			bullet := "* "
			if deep {
				bullet = "** "
			}
			switch k % 4 {
			case 1:
				bullet += "[x] "
				e.check = 1
			case 2:
				bullet += "[ ] "
				e.check = 2
			case 3:
				bullet += "[*] "
				e.check = 1
			}
			src += bullet + e.text + "\n"
			exps = append(exps, e)
		}
		return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
			d, err := lib.DOM(src, lib.Opts{})
			if err != nil {
				return err
			}
			ps := d.All("p")
			if len(ps) != len(exps) {
				return fmt.Errorf("%d items expected, got %d: %s", len(exps), len(ps), d.Brief())
			}
			for i, e := range exps {
				in := ps[i].First("input")
				var exp, got string
				switch {
				case e.check == 0:
					exp = e.text
				case e.inter:
					exp = "input:" + map[int]string{1: "checked", 2: ""}[e.check] + " " + e.text
				case e.check == 1:
					exp = "✓ " + e.text
				default:
					exp = "❏ " + e.text
				}
				got = ps[i].Inline()
				if in != nil {
					got = "input:"
					if _, ok := in.Attrs["checked"]; ok {
						got += "checked"
					}
					if a := in.Attrs["data-item-complete"]; (a == "1") != (e.check == 1) {
						got += "?" + a
					}
					for _, k := range ps[i].Kids {
						if k.Tag == "" {
							got += k.Text
						}
					}
				}
				r.Outcome(got)
				if strings.TrimSpace(got) != exp {
					return fmt.Errorf("item %d: expected %q, got %q", i, exp, got)
				}
			}
			return nil
		}}
	}}
}

// listAttached: blocks of all kinds attached to the items of all levels, followed by items of all levels
func listAttached(kinds []string, after []string, deep int) core.Family {
	blocks := []struct{ src, sel string }{
		{"A1", "div.paragraph"}, {"----\nA1\n----", "div.listingblock"}, {"====\nA1\n====", "div.exampleblock"}, {"====\n* A1\n** A2\n\nA3\n====", "div.exampleblock"},
		{"|===\n|A1\n|===", "table"}, {"image::A1.png[A1]", "div.imageblock"}, {"--\nA1\n\n* A2\n--", "div.openblock"}, {"[quote]\n____\nA1\n____", "div.quoteblock"},
		{"....\nA1\n....", "div.literalblock"}, {"[NOTE]\nA1", "div.admonitionblock"}, {"NOTE: A1", "div.admonitionblock"}, {"'''", "hr"}, {"[source,go]\n----\nA1\n----", "div.listingblock"}, {".T\nA1", "div.paragraph"},
		{"```\nA1\n```", "div.listingblock"}, {"****\nA1\n****", "div.sidebarblock"}, {"++++\nA1\n++++", ""}, {"[verse]\nA1", "div.verseblock"}, {"====\nA1\n\n----\nA2\n\n* A3\n----\n====", "div.exampleblock"},
	}
	return core.Family{Name: "attached", Gen: func(g *core.Gen) *core.Case {
		m := newListMachine()
		src := ""
		depth := 1 + g.Choose(4+deep/19)
		for i := 0; i < depth; i++ {
			src += m.step(core.PickOf(g, kinds), i)
		}
		if m.failed {
			return g.Skip()
		}
		blanks := g.Choose(depth + 2)
		among := blocks
		if depth == 3 {
			among = blocks[:deep]
		} else if depth > 3 {
			among = blocks[:1]
		}
		b := core.PickOf(g, among)
		src += strings.Repeat("\n", blanks) + "+\n" + b.src + "\n"
		// in the model, the block is a verbatim block with a mark
		m.blank = blanks
		m.continuation()
		m.verbatim("@@")
		after := after
		if depth > 3 {
			after = after[:1]
		} else if g.Bool() {
			src += "\n"
			m.blankLine()
		}
		if a := core.PickOf(g, after); a != "" {
			if a == "text" && m.blank == 0 && strings.HasSuffix(b.src, "A1") {
				return g.Skip() // a line of the attached paragraph
			}
			if b.sel == "hr" && m.blank == 0 {
				return g.Skip() // a thematic break is followed by a blank line
			}
			src += m.step(a, 8)
		}
		if m.failed {
			return g.Skip()
		}
		alone := b.src + "\n"
		exp := canons(m.root)
		return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
			d, err := lib.DOM(src, lib.Opts{})
			if err != nil {
				return err
			}
			ref, err := lib.DOM(alone, lib.Opts{})
			if err != nil {
				return err
			}
			if b.sel == "" { // raw text
				if !strings.Contains(d.Content(), "A1") {
					return fmt.Errorf("the block is lost\n%s", d.Brief())
				}
				return nil
			}
			found := d.All(b.sel)
			if b.src == "A1" { // maybe the first paragraph of a description
				found = append(found, d.All("p")...)
			}
			for _, f := range found {
				if strings.Contains(f.Content(), "A1") || b.sel == "hr" || strings.Contains(f.Canon(), "A1") {
					refs := ref.All(b.sel)
					if f.Tag != "p" && (len(refs) == 0 || refs[0].Canon() != f.Canon()) {
						return fmt.Errorf("the attached block is not rendered as alone: %s", f.Canon())
					}
					// replace it with the mark
					f.Tag, f.Attrs = "div", map[string]string{"class": "listingblock"}
					f.Kids = []*lib.Node{{Text: "@@"}}
					break
				}
			}
			got := listsCanon(body(d).Children())
			r.Outcome(got)
			if got != exp {
				return fmt.Errorf("the lists are not as expected: expected\n%s\ngot\n%s", exp, got)
			}
			return nil
		}}
	}}
}

func init() {
	core.Register(&core.Property{
		ID:     "C18",
		Title:  "Lists nest by their markers and keep the blocks attached to their items",
		Bounds: "all sequences of up to 4 items (thorough: 5) with 19 markers, of up to 5 (6) with 11 and of up to 6 (7) with 6; all sequences of up to 5 (7) lines among items of 5 kinds, text, blank lines, list continuations, comments and delimited blocks; 19 kinds of blocks attached at all levels of all nestings of depth up to 2 (2 kinds in nestings of depth 3, thorough: all kinds; 1 kind in nestings of depth 4, thorough: 5), followed by text or by any item; all checklists of up to 4 items",
		Assumptions: []string{"an unordered list directly in an item of another unordered list has the next marker (-, *, **, ***): the library gives other markers the style which follows their parent's (an existing test requires it)",
			"items which follow a paragraph without a blank line are text of the paragraph, and are not enumerated"},
		Families: func(tier string) []core.Family {
			n := 0
			if tier == "thorough" {
				n = 1
			}
			all := []string{"*", "-", "**", "***", ".", "..", "...", "....", ".....", "1.", "a.", "i)", "A.", "I)", "::", ":::", "::::", "::!", ":::!"}
			lines := []string{"*", "**", ".", "::", "::!", "text", "blank", "+", "//", "----"}
			kinds := []string{"*", "**", ".", "..", "::", ":::!"}
			return []core.Family{
				listSequences("markers", 4+n, all, all),
				listSequences("markers-2", 5+n, []string{"*", ".", "::"}, []string{"*", "-", "**", ".", "..", "1.", "a.", "i)", "::", ":::", "::!"}),
				listSequences("deep-markers", 6+n, kinds, kinds),
				listSequences("bullets", 6+n, bulletOrder[:5], bulletOrder[:5]),
				listSequences("indented", 4+n, []string{"*", " *"}, []string{"*", "  *", "  **", " .", "   ::", " ..", "\t-"}),
				listSequences("lines", 5+n+n, lines[:6], lines),
				listSequences("lines-2", 6+n+n, []string{"*", "::!"}, []string{"**", ":::!", "text", "blank", "+", "----"}),
				listSequences("lines-3", 5+n+n, []string{"*", "::"}, []string{"**", ".", "text", "blank", "+", "//", "----"}),
				listAttached(kinds, append([]string{"", "text", "+"}, kinds...), 2+17*n),
				listChecklists(4 + n),
			}
		},
	})
}
