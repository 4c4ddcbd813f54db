package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

var subsSteps = []string{"specialchars", "quotes", "attributes", "replacements", "macros", "post_replacements", "callouts"}

// the groups of substitutions, in the order of the implementation (which matters for the values of attributes only)
func subsGroup(s string) []string {
	switch s {
	case "none":
		return nil
	case "verbatim":
		return []string{"callouts", "specialchars"}
	case "normal":
		return []string{"passthroughs", "attributes", "specialchars", "quotes", "replacements", "macros", "post_replacements"}
	}
	return []string{s}
}

// subsOf is the model of the `subs` attribute: the sequence of the steps.
func subsOf(subs, byDefault string) []string {
	list := strings.Split(subs, ",")
	incremental := true
	for i, s := range list {
		list[i] = strings.TrimSpace(s)
		incremental = incremental && strings.ContainsAny(list[i], "+-")
	}
	seq := []string{}
	if incremental {
		seq = append(seq, subsGroup(byDefault)...)
	}
	for _, s := range list {
		steps := subsGroup(strings.Trim(s, "+-"))
		switch {
		case s == "":
		case strings.HasSuffix(s, "+"):
			seq = append(append([]string{}, steps...), seq...)
		case strings.HasPrefix(s, "-"):
			kept := []string{}
			for _, q := range seq {
				removed := false
				for _, t := range steps {
					removed = removed || q == t
				}
				if !removed {
					kept = append(kept, q)
				}
			}
			seq = kept
		default:
			seq = append(seq, steps...)
		}
	}
	return seq
}

type subsSet map[string]bool

func has(seq []string, s string) bool {
	for _, q := range seq {
		if q == s {
			return true
		}
	}
	return false
}

// a piece of text, and what it becomes
type subsPiece struct {
	src  string
	text func(seq []string) string
	end  bool // at the end of a line only
}

func escapedIf(seq []string, s string) string {
	if has(seq, "specialchars") {
		return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
	}
	return s
}

func simplePiece(step, src, text string) subsPiece {
	return subsPiece{src: src, text: func(seq []string) string {
		if has(seq, step) {
			return text
		}
		return escapedIf(seq, src)
	}}
}

var subsPieces = []subsPiece{
	simplePiece("specialchars", "a < b & c", "a &lt; b &amp; c"),
	simplePiece("quotes", "*b*", "<strong>b</strong>"),
	simplePiece("quotes", "_i_", "<em>i</em>"),
	simplePiece("quotes", "`m`", "<code>m</code>"),
	simplePiece("quotes", "#k#", "<mark>k</mark>"),
	simplePiece("quotes", "^u^", "<sup>u</sup>"),
	simplePiece("quotes", "d**e**f", "d<strong>e</strong>f"),
	simplePiece("attributes", "{x}", "value"),
	simplePiece("replacements", "(C)", "&#169;"),
	simplePiece("replacements", "g...", "g&#8230;&#8203;"),
	simplePiece("macros", "http://a.b[h]", `<a href="http://a.b">h</a>`),
	simplePiece("macros", "image:p.png[]", `<span class="image"><img src="p.png" alt="p"></span>`),
	{src: "n +", end: true, text: func(seq []string) string {
		if has(seq, "post_replacements") {
			return "n<br>"
		}
		return "n +"
	}},
	{src: "o <1>", end: true, text: func(seq []string) string {
		if has(seq, "callouts") {
			return `o <b class="conum">(1)</b>`
		}
		return escapedIf(seq, "o <1>")
	}},
	// the substitutions after the one of the attributes apply to their values
	{src: "{q}", text: func(seq []string) string {
		if !has(seq, "attributes") {
			return "{q}"
		}
		last := 0
		for i, s := range seq {
			if s == "attributes" {
				last = i
			}
		}
		if has(seq[last:], "quotes") {
			return "<strong>v</strong>"
		}
		return "*v*"
	}},
	{src: "+*w*+", text: func(seq []string) string {
		switch {
		case has(seq, "passthroughs"):
			return "*w*"
		case has(seq, "quotes"):
			return "+<strong>w</strong>+"
		}
		return "+*w*+"
	}},
}

type subsBlock struct {
	before, after string
	byDefault     string
}

var subsBlocks = []subsBlock{
	{"«", "\n", "normal"},
	{"«NOTE: ", "\n", "normal"},
	{"«[quote]\n", "\n", "normal"},
	{"«[verse]\n", "\n", "normal"},
	{"«[verse]\n____\n", "\n____\n", "normal"},
	{"«----\n", "\n----\n", "verbatim"},
	{"«[source]\n----\n", "\n----\n", "verbatim"},
	{"«[listing]\n", "\n", "verbatim"},
	{"«```\n", "\n```\n", "verbatim"},
	{"«....\n", "\n....\n", "verbatim"},
	{"«[literal]\n", "\n", "verbatim"},
	{"« ", "\n", "verbatim"},
	{"«++++\n", "\n++++\n", "none"},
	{"«[pass]\n", "\n", "none"},
	{"«.Title\n[#id]\n----\n", "\n----\n", "verbatim"},
	{"* a\n+\n«----\n", "\n----\n", "verbatim"},
	{"====\n«----\n", "\n----\n====\n", "verbatim"},
	{"====\n«", "\n\n====\n", "normal"},
	{"[NOTE]\n====\n«", "\n\n====\n", "normal"},
	{"|===\na|\n«----\n", "\n----\n|===\n", "verbatim"},
	{"****\n«....\n", "\n....\n****\n", "verbatim"},
	// the substitutions of the blocks which contain blocks are not those of their content
	{"«====\n", "\n====\n", "normal!"},
	{"«****\n", "\n****\n", "normal!"},
	{"«--\n", "\n--\n", "normal!"},
	{"«____\n", "\n____\n", "normal!"},
	{"«====\n----\n", "\n----\n====\n", "verbatim!"},
}

// subsCase: each piece of the block is substituted if and only if its substitution is enabled.
func subsCase(b subsBlock, line string, subs string, lines [][]subsPiece, predefined bool) *core.Case {
	seq := subsOf(subs, strings.Trim(b.byDefault, "!"))
	if strings.HasSuffix(b.byDefault, "!") || line == "" {
		seq = subsGroup(strings.Trim(b.byDefault, "!"))
	}
	n := 0
	for _, s := range seq {
		if s == "attributes" {
			n++
		}
	}
	src, want := []string{}, []string{}
	for _, l := range lines {
		if n > 1 && l[0].src == "{q}" {
			continue // (which one counts is not specified)
		}
		s, w := []string{}, []string{}
		for _, p := range l {
			s = append(s, p.src)
			w = append(w, p.text(seq))
		}
		src = append(src, strings.Join(s, " "))
		want = append(want, strings.Join(w, " "))
	}
	source := strings.Replace(b.before, "«", strings.ReplaceAll(line, "SUBS", subs), 1) + "BEGIN\n" + strings.Join(src, "\n") + "\nEND" + b.after
	expected := strings.Join(want, "\n")
	attrs := map[string]interface{}{"x": "value", "q": "*v*"}
	if predefined {
		attrs = nil
	} else {
		attrs["s"] = subs
	}
	if predefined {
		source = ":s: " + subs + "\n:x: value\n:q: *v*\n\n" + source
	}
	return &core.Case{
		Desc: fmt.Sprintf("%q", source),
		Check: func(r *core.Run) error {
			out, logs, err := lib.Convert(source, lib.Opts{Attrs: attrs})
			if err != nil {
				return err
			}
			r.Outcome(out)
			i, j := strings.Index(out, "BEGIN\n"), strings.Index(out, "\nEND")
			if i < 0 || j < i || strings.Count(out, "BEGIN") != 1 {
				return fmt.Errorf("no content: %s %q", out, logs)
			}
			if got := out[i+len("BEGIN\n") : j]; got != expected {
				return fmt.Errorf("substitutions %v: %s", seq, firstDiff(expected, got))
			}
			return nil
		},
	}
}

// the ways to write the attribute
var subsLines = []string{
	"[subs=\"SUBS\"]\n", "", "[#i.r,subs=\"SUBS\"]\n", "[.r]\n[subs=\"SUBS\"]\n", "[subs=\"SUBS\"]\n[.r]\n.Title\n", "[subs=\"{s}\"]\n", "[subs=\" SUBS \"]\n", "[a=b,subs='SUBS',c=d]\n", "[subs=\"none\"]\n[subs=\"SUBS\"]\n",
}

func c20Families(tier string) []core.Family {
	thorough := tier == "thorough"
	all := [][]subsPiece{}
	for _, p := range subsPieces {
		all = append(all, []subsPiece{p})
	}
	words := append(append([]string{}, subsSteps...), "normal", "verbatim", "none")
	return []core.Family{
		{Name: "sets", Gen: func(g *core.Gen) *core.Case {
			b := core.PickOf(g, subsBlocks)
			n := 0
			subs := []string{}
			for _, s := range subsSteps {
				if g.Bool() {
					subs = append(subs, s)
					n++
				}
			}
			if n == 0 {
				subs = append(subs, "none")
			}
			return subsCase(b, subsLines[0], strings.Join(subs, ","), all, g.Bool())
		}},
		{Name: "sequences", Gen: func(g *core.Gen) *core.Case {
			b := core.PickOf(g, subsBlocks)
			n := 1 + g.Choose(2)
			if thorough {
				n = 1 + g.Choose(3)
			}
			subs := []string{}
			for i := 0; i < n; i++ {
				subs = append(subs, core.PickOf(g, words))
			}
			return subsCase(b, subsLines[0], strings.Join(subs, ","), all, false)
		}},
		{Name: "incremental", Gen: func(g *core.Gen) *core.Case {
			b := core.PickOf(g, subsBlocks)
			n := 1 + g.Choose(2)
			if thorough {
				n = 1 + g.Choose(3)
			}
			subs := []string{}
			for i := 0; i < n; i++ {
				w := core.PickOf(g, words)
				switch g.Choose(3) {
				case 0:
					subs = append(subs, "+"+w)
				case 1:
					subs = append(subs, w+"+")
				case 2:
					subs = append(subs, "-"+w)
				}
			}
			return subsCase(b, subsLines[0], strings.Join(subs, ","), all, false)
		}},
		{Name: "pairs", Gen: func(g *core.Gen) *core.Case {
			blocks := []subsBlock{subsBlocks[0], subsBlocks[4], subsBlocks[5], subsBlocks[12]}
			if thorough {
				blocks = subsBlocks
			}
			b := core.PickOf(g, blocks)
			subs := g.Pick("none", "normal", "verbatim", "specialchars,quotes", "quotes,attributes", "attributes,quotes", "replacements,specialchars", "macros", "specialchars,attributes", "+quotes", "macros+", "-specialchars", "-quotes", "callouts,quotes,specialchars", "post_replacements,macros")
			p, q := core.PickOf(g, subsPieces), core.PickOf(g, subsPieces)
			if p.end {
				return g.Skip()
			}
			return subsCase(b, subsLines[0], subs, [][]subsPiece{{p, q}, {q}}, false)
		}},
		{Name: "writings", Gen: func(g *core.Gen) *core.Case {
			b := core.PickOf(g, subsBlocks)
			line := core.PickOf(g, subsLines)
			subs := g.Pick("none", "normal", "verbatim", "specialchars, quotes", "quotes ,attributes", " attributes,quotes", "+quotes", "macros+, +attributes", "-specialchars", "+quotes,\t-quotes", "", "quotes,", "normal, -quotes")
			if line == "" && subs != "none" || (subs == "" || strings.HasPrefix(subs, " ")) && strings.Contains(line, "{s}") {
				return g.Skip()
			}
			return subsCase(b, line, subs, all, g.Bool())
		}},
		{Name: "mixed", Gen: func(g *core.Gen) *core.Case {
			b := core.PickOf(g, subsBlocks)
			subs := []string{core.PickOf(g, words), g.Pick("-", "+") + core.PickOf(g, words)}
			return subsCase(b, subsLines[0], strings.Join(subs, ","), all, false)
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C20", Title: "Blocks get the substitutions they ask for", Families: c20Families,
		Bounds:      "26 kinds of blocks: all sets of the 7 substitutions; all sequences of 2 (3 in the thorough tier) among the substitutions and groups, plain, incremental and mixed; all pairs of 16 pieces of markup with 15 lists; 13 lists in 9 ways to write the attribute",
		Assumptions: []string{"the one-letter names of substitutions are not supported by the library", "when the attributes are substituted twice, which of both times the markup of their values depends on is not specified"},
	})
}
