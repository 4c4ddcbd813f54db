package props

import (
	"fmt"
	"strconv"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// counterOps are references to counters
var counterOps = []struct {
	src, name string
	start     string
	hidden    bool
}{
	{"{counter:c}", "c", "", false},
	{"{counter2:c}", "c", "", true},
	{"{counter:d-e}", "d-e", "", false},
	{"{counter:c:7}", "c", "7", false},
	{"{counter2:c:3}", "c", "3", true},
	{"{counter:l:p}", "l", "p", false},
	{"{counter:l}", "l", "", false},
	{"{counter2:d-e:99}", "d-e", "99", true},
}

// counterModel is the reference: the last value of each counter
type counterModel map[string]string

func (m counterModel) op(i int) string {
	o := counterOps[i]
	v, found := m[o.name]
	switch {
	case o.start != "":
		v = o.start
	case !found:
		v = "1"
	default:
		if n, err := strconv.Atoi(v); err == nil {
			v = strconv.Itoa(n + 1)
		} else {
			v = string(rune(v[0] + 1))
		}
	}
	m[o.name] = v
	if o.hidden {
		return ""
	}
	return v
}

func init() {
	// the places in which the order of the references is the one of their substitution
	var places []struct{ name, src string }
	for _, p := range refPlaces {
		switch p.name {
		case "email", "icon", // numbers are no icons
			"inline-role",
			// several attributes with references in the same list
			"quote", "quote-paragraph", "verse", "verse-paragraph", "image-attributes", "image-link", "link-attributes", "role-and-id", "example":
		default:
			places = append(places, p)
		}
	}
	core.Register(&core.Property{
		ID:          "C14",
		Title:       "Counters increase once per occurrence, in document order",
		Bounds:      fmt.Sprintf("all sequences of up to 4 (thorough: 5) references to 3 counters, visible or hidden, with and without start values, each in a paragraph of its own, or all in the same one; all references in each of %d places (up to 6 references per place), between two other references; all pairs of places", len(places)),
		Assumptions: []string{"a start value sets the counter at every occurrence (an existing test requires it)", "letters beyond z are left out"},
		Families: func(tier string) []core.Family {
			n := 0
			if tier == "thorough" {
				n = 1
			}
			return []core.Family{
				{Name: "sequences", Gen: func(g *core.Gen) *core.Case {
					m := counterModel{}
					sep := g.Pick(" ", "\n\n", "\n\n'''\n\n")
					var src, ref []string
					for i := 0; i < 4+n; i++ {
						k := g.Choose(len(counterOps) + 1)
						if k == 0 {
							break
						}
						src = append(src, "x"+counterOps[k-1].src+"y")
						ref = append(ref, "x"+m.op(k-1)+"y")
					}
					if len(src) == 0 {
						return g.Skip()
					}
					g.State(src)
					return sameOutput(strings.Join(src, sep)+"\n", strings.Join(ref, sep)+"\n", lib.Opts{})
				}},
				{Name: "places", Gen: func(g *core.Gen) *core.Case {
					m := counterModel{}
					p := core.PickOf(g, places)
					pre := g.Choose(3)
					src, ref := ":experimental:\n\n", ":experimental:\n\n"
					if pre > 0 {
						src += "p " + counterOps[pre*2-2].src + "\n\n"
						ref += "p " + m.op(pre*2-2) + "\n\n"
					}
					s, r := p.src, p.src
					full := strings.Count(s, "§") <= 2+n
					k := 0
					for i := 0; strings.Contains(s, "§"); i++ {
						if i == 0 || full {
							k = g.Choose(len(counterOps))
						} else {
							k = (k + 1) % 3 * 2 % len(counterOps)
						}
						if counterOps[k].hidden && (strings.HasPrefix(s, "§") || strings.Contains(s, " §") || strings.Contains(s, "_§")) {
							return g.Skip() // spaces around nothing
						}
						s = strings.Replace(s, "§", counterOps[k].src, 1)
						r = strings.Replace(r, "§", m.op(k), 1)
					}
					src, ref = src+s+"\n\n", ref+r+"\n\n"
					if !strings.HasSuffix(p.src, "====") {
						src, ref = src+"//-\n\n", ref+"//-\n\n"
					}
					src += "q {counter:c} {counter:l}\n"
					ref += "q " + m.op(0) + " " + m.op(6) + "\n"
					return sameOutput(src, ref, lib.Opts{})
				}},
				{Name: "pairs", Gen: func(g *core.Gen) *core.Case {
					m := counterModel{}
					a, b := core.PickOf(g, places), core.PickOf(g, places)
					s := ":experimental:\n\n" + a.src + "\n\nsep §\n\n" + b.src + "\n"
					r := s
					for strings.Contains(s, "§") {
						s = strings.Replace(s, "§", "{counter:c}", 1)
						r = strings.Replace(r, "§", m.op(0), 1)
					}
					return sameOutput(s, r, lib.Opts{})
				}},
			}
		},
	})
}
