package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// visibleText returns the text content, and the values of the attributes which replace a text (alt).
func visibleText(n *lib.Node) string {
	sb := &strings.Builder{}
	n.Walk(func(m *lib.Node) bool {
		if m.Tag == "" {
			sb.WriteString(m.Text)
		} else if m.Tag != "!--" {
			if m.Tag != "strong" && m.Tag != "em" && m.Tag != "b" && m.Tag != "mark" && m.Tag != "sub" && m.Tag != "sup" && m.Tag != "code" {
				sb.WriteString(" ")
			}
			if alt, ok := m.Attrs["alt"]; ok {
				sb.WriteString(alt + " ")
			}
		}
		return m.Tag != "!--"
	})
	return sb.String()
}

// contentCheck: every visible word is there exactly once, in the order of the source (but for the
// footnotes, which come at the end), and no hidden word is.
func contentCheck(src string, visible, hidden []string, o lib.Opts) func(r *core.Run) error {
	return func(r *core.Run) error {
		d, err := lib.DOM(src, o)
		if err != nil {
			return err
		}
		r.Outcome(d.Canon())
		text := visibleText(d)
		got := []string{}
		got = append(got, wordsLike(text, 'w', 'v')...)
		count := map[string]int{}
		for _, w := range append(wordsLike(text, 'y', 'v'), got...) {
			count[w]++
		}
		for _, w := range visible {
			if count[w] != 1 {
				return fmt.Errorf("the word %q appears %d times in the text\n%s", w, count[w], d.Brief())
			}
		}
		for _, w := range hidden {
			if strings.Contains(text, w) {
				return fmt.Errorf("the word %q appears in the text\n%s", w, d.Brief())
			}
		}
		// order: footnotes excluded
		notes := map[string]bool{}
		for _, f := range d.All("div.footnote") {
			for _, w := range wordsLike(visibleText(f), 'w', 'v') {
				notes[w] = true
			}
		}
		pos := map[string]int{}
		for i, w := range got {
			pos[w] = i
		}
		seq := []int{}
		names := []string{}
		for _, w := range visible {
			if !notes[w] && w[0] == 'w' {
				seq = append(seq, pos[w])
				names = append(names, w)
			}
		}
		if !sort.IntsAreSorted(seq) {
			return fmt.Errorf("the words are not in the order of the source: expected %v, got %v", names, got)
		}
		return nil
	}
}

// wordsLike extracts the words generated by fill.
func wordsLike(s string, first, last byte) []string {
	r := []string{}
	for i := 0; i < len(s); i++ {
		if s[i] != first {
			continue
		}
		j := i + 1
		for j < len(s) && s[j] >= 'A' && s[j] <= 'Z' {
			j++
		}
		k := j
		for k < len(s) && s[k] >= '0' && s[k] <= '9' {
			k++
		}
		if j > i+1 && k > j && k < len(s) && s[k] == last {
			r = append(r, s[i:k+1])
			i = k
		}
	}
	return r
}

var composeOpts = []lib.Opts{{}, {Backend: "xhtml5", Wrap: true}}

func contentSingles() core.Family {
	return core.Family{Name: "blocks-in-containers", Gen: func(g *core.Gen) *core.Case {
		c := core.PickOf(g, containers)
		b, ok := pickBlock(g, c)
		if !ok || b.has(fPending) {
			return g.Skip()
		}
		o := core.PickOf(g, composeOpts)
		src, v, h := fill(c.before+b.src+c.after+"\n", "A")
		return &core.Case{Desc: fmt.Sprintf("backend=%s wrap=%v source=%q", o.Backend, o.Wrap, src), Check: contentCheck(src, v, h, o)}
	}}
}

func contentPairs(name string, seps []string, in []container, after string, blocks int) core.Family {
	return core.Family{Name: name, Gen: func(g *core.Gen) *core.Case {
		c := core.PickOf(g, in)
		if c.fence == "|===" {
			return g.Skip() // cells with blank lines are not supported
		}
		sep := core.PickOf(g, seps)
		if c.inList {
			sep = "\n+\n"
		}
		src := ""
		var vis, hid []string
		for i := 0; i < blocks; i++ {
			b, ok := pickBlock(g, c)
			if !ok || b.has(fPending) {
				return g.Skip()
			}
			s, v, h := fill(b.src, string(rune('A'+i)))
			vis, hid = append(vis, v...), append(hid, h...)
			if i > 0 {
				src += sep
			}
			src += s
		}
		before, v, _ := fill(c.before, "Z")
		vis = append(v, vis...)
		src = before + src + c.after + "\n" + after
		return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: contentCheck(src, vis, hid, lib.Opts{})}
	}}
}

func init() {
	core.Register(&core.Property{
		ID:          "C03",
		Title:       "No content is lost, duplicated or reordered",
		Bounds:      "all blocks of the corpus in all containers, all pairs of blocks (separated by a blank line, by several ones, by a comment, or by a continuation) in all containers; thorough: all triples of blocks at the root",
		Assumptions: []string{"each word of the source is unique, so that counting words in the text of the output identifies losses, duplications and changes of order"},
		Families: func(tier string) []core.Family {
			f := []core.Family{
				contentSingles(),
				contentPairs("pairs", []string{"\n\n"}, containers, "", 2),
				contentPairs("pairs-separators", []string{"\n\n\n\n", "\n\n// comment\n\n", "\n\n'''\n\n"}, containers[:1], "", 2),
			}
			if tier == "thorough" {
				f = append(f, contentPairs("triples", []string{"\n\n"}, containers[:1], "", 3))
			}
			return f
		},
	})
}
