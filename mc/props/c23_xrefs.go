package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// targets of references: source, how it is referred to, id in the output, canonical title ("" if none)
var xrefTargets = []struct{ name, src, ref, id, title string }{
	{"section", "== Foo *bar*\n\ntext", "_foo_bar", "_foo_bar", "Foo <strong>bar</strong>"},
	{"section-by-case", "== Foo *bar*\n\ntext", "_Foo_bar", "_foo_bar", "Foo <strong>bar</strong>"},
	{"section-by-title", "== Foo bar\n\ntext", "Foo bar", "_foo_bar", "Foo bar"},
	{"section-id", "[#Theid]\n== Foo & `bar`\n\ntext", "Theid", "theid", "Foo &amp; <code>bar</code>"},
	{"section-legacy-id", "[[theid]]\n=== Foo\n\ntext", "theid", "theid", "Foo"},
	{"section-inline-id", "== Foo [[theid]]\n\ntext", "theid", "theid", "Foo"},
	{"section-second", "== Foo\n\ntext\n\n== Foo\n\ntext", "_foo_2", "_foo_2", "Foo"},
	{"section-link-title", "[#theid]\n== Foo https://a.b[bar]\n\ntext", "theid", "theid", "Foo bar"},
	{"paragraph", "[#theid]\ntext", "theid", "theid", ""},
	{"paragraph-legacy", "[[the-id]]\ntext", "the-id", "the-id", ""},
	{"paragraph-title", "[#theid]\n.T *b*\ntext", "theid", "theid", "T <strong>b</strong>"},
	{"admonition", "[#theid]\n.T\nNOTE: text", "theid", "theid", "T"},
	{"listing", "[#theid]\n.T\n----\ntext\n----", "theid", "theid", "T"},
	{"literal", "[#theid]\n.T\n....\ntext\n....", "theid", "theid", "T"},
	{"example", "[#theid]\n.T\n====\ntext\n====", "theid", "theid", "T"},
	{"sidebar", ".T\n[#theid]\n****\ntext\n****", "theid", "theid", "T"},
	{"quote", "[#theid]\n.T\n____\ntext\n____", "theid", "theid", "T"},
	{"open", "[#theid]\n.T\n--\ntext\n--", "theid", "theid", "T"},
	{"table", "[#theid]\n.T\n|===\n|text\n|===", "theid", "theid", "T"},
	{"image", "[#theid]\n.T\nimage::i.png[]", "theid", "theid", "T"},
	{"ulist", "[#theid]\n.T\n* text", "theid", "theid", "T"},
	{"olist", "[[theid]]\n.T\n. text", "theid", "theid", "T"},
	{"dlist", "[#theid]\n.T\ntext:: text", "theid", "theid", "T"},
	{"anchor", "text [[theid]]text", "theid", "theid", ""},
	{"anchor-in-list", "* text\n* [[theid]]text", "theid", "theid", ""},
	{"anchor-in-cell", "|===\n|[[theid]]text\n|===", "theid", "theid", ""},
	{"marked", "text [#theid]#text#", "theid", "theid", ""},
	{"nested", "====\n[#theid]\n.T\ntext\n====", "theid", "theid", "T"},
	{"nested-in-list", "* text\n+\n[#theid]\n.T\n----\ntext\n----", "theid", "theid", "T"},
	{"none", "text", "missing", "missing", ""},
}

// titles of blocks, and the labels they give
var xrefTitles = []struct{ src, label string }{
	{"T", "T"},
	{"T *b*", "T <strong>b</strong>"},
	{"*b* & `c`", "<strong>b</strong> &amp; <code>c</code>"},
	{"T {lab}", "T value"},
	{"T https://a.b[l]", "T l"},
	{"T <<other>>", "T [other]"},
	{"T <<other,l *m*>>", "T l <strong>m</strong>"},
	{"T +a+", "T a"},
	{"T 'a", "T 'a"},
}

// notations of a reference: %s is the reference; label in the output ("" for the default one)
var xrefForms = []struct{ src, label string }{
	{"<<%s>>", ""},
	{"<<%s,lab el>>", "lab el"},
	{"<<%s, a & b>>", "a &amp; b"},
	{"<<%s,x>>", "x"},
	{"<<%s,{lab}>>", "value"},
	{"<<#%s>>", ""},
	{"xref:%s[]", ""},
	{"xref:%s[lab el]", "lab el"},
	{"xref:%s[lab *el*]", "lab <strong>el</strong>"},
	{"xref:#%s[]", ""},
	{"xref:#%s[lab]", "lab"},
}

// places of a reference
var xrefPlaces = []struct{ name, before, after string }{
	{"paragraph", "see ", " now"},
	{"bold", "see *", "* now"},
	{"list", "* see ", " now"},
	{"nested-list", "* item\n.. see ", ""},
	{"attached", "* item\n+\nsee ", ""},
	{"term", "see ", ":: def"},
	{"definition", "term:: see ", ""},
	{"cell", "|===\n|see ", " |b\n|==="},
	{"header-cell", "[%header]\n|===\n|see ", "\n|b\n|==="},
	{"a-cell", "|===\na|see ", "\n|==="},
	{"footnote", "a footnote:[see ", " now]"},
	{"title", ".see ", " now\nb"},
	{"example", "====\nsee ", "\n===="},
	{"quote", "____\nsee ", "\n____"},
	{"verse", "[verse]\nsee ", ""},
	{"admonition", "NOTE: see ", ""},
	{"sidebar-list", "****\n* see ", "\n****"},
	{"callout", "----\na <1>\n----\n<1> see ", ""},
}

// markup is the source of the children of the node
func markup(n *lib.Node) string {
	sb := &strings.Builder{}
	for _, k := range n.Kids {
		if k.Tag == "" {
			t := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(k.Text)
			sb.WriteString(t)
		} else {
			sb.WriteString("<" + k.Tag + ">" + markup(k) + "</" + k.Tag + ">")
		}
	}
	return sb.String()
}

func checkXref(src, id, label string, hasTarget bool, o lib.Opts) *core.Case {
	return &core.Case{
		Desc: fmt.Sprintf("backend=%s source=%q", o.Backend, src),
		Check: func(r *core.Run) error {
			n, err := lib.DOM(src, o)
			if err != nil {
				return err
			}
			r.Outcome(n.Canon())
			var links []*lib.Node
			for _, a := range n.All("a") {
				h := a.Attrs["href"]
				if h == "" || strings.HasPrefix(h, "#_footnote") || h == "https://a.b" || h == "#other" {
					continue
				}
				links = append(links, a)
			}
			if len(links) != 1 {
				return fmt.Errorf("one link expected, got %d\n%s", len(links), n.Brief())
			}
			if links[0].Attrs["href"] != "#"+id {
				return fmt.Errorf("link to %q expected, got %q\n%s", "#"+id, links[0].Attrs["href"], n.Brief())
			}
			if m := markup(links[0]); m != label {
				return fmt.Errorf("label %q expected, got %q\n%s", label, m, n.Brief())
			}
			count := 0
			for _, i := range n.IDs() {
				if i == id {
					count++
				}
			}
			if hasTarget && count != 1 {
				return fmt.Errorf("%d elements with the id %q\n%s", count, id, n.Brief())
			}
			return nil
		},
	}
}

func init() {
	core.Register(&core.Property{
		ID:    "C23",
		Title: "Cross references lead to the element, with the right label",
		Bounds: "all combinations of 30 targets (sections, blocks, lists, anchors; none), 11 notations, 18 places, with the reference before or after the target; all titled targets in all containers and pairs of nested containers, alone or after another block, in documents with and without header, sections and other targets before; all pairs of references to two targets; " +
			"references to other documents; references to sections under all settings of prefix and separator",
		Families: func(tier string) []core.Family {
			return []core.Family{
				{Name: "single", Gen: func(g *core.Gen) *core.Case {
					t, f, p := core.PickOf(g, xrefTargets), core.PickOf(g, xrefForms), core.PickOf(g, xrefPlaces)
					if t.name == "section-by-title" && !strings.HasPrefix(f.src, "<<%") {
						return g.Skip()
					}
					ref := p.before + fmt.Sprintf(f.src, t.ref) + p.after
					if t.title == "T" && f.label == "" && p.name == "paragraph" {
						title := core.PickOf(g, xrefTitles)
						t.src, t.title = strings.Replace(t.src, ".T\n", "."+title.src+"\n", 1), title.label
					}
					label := f.label
					if label == "" {
						label = t.title
					}
					if label == "" {
						label = "[" + t.ref + "]"
					}
					src := ref + "\n\n'''\n\n" + t.src + "\n"
					if g.Bool() {
						src = t.src + "\n\n'''\n\n" + ref + "\n"
					}
					o := lib.Opts{Attrs: map[string]interface{}{"lab": "value"}}
					if tier == "thorough" {
						o.Backend = g.Pick("html5", "xhtml5")
						if g.Bool() {
							src = "= Doc\n:toc:\n\npreamble\n\n" + src
							if strings.HasPrefix(t.name, "section") {
								return g.Skip()
							}
						}
					}
					return checkXref(src, t.id, label, t.name != "none", o)
				}},
				{Name: "containers", Gen: func(g *core.Gen) *core.Case {
					t := core.PickOf(g, xrefTargets[8:])
					before, after, in, ok := nest(g)
					if !ok || t.name == "none" || strings.Contains(t.name, "nested") {
						return g.Skip()
					}
					for _, c := range in {
						if c.fence != "" && strings.HasSuffix(t.src, c.fence) || c.inList && (strings.HasSuffix(t.name, "list") || t.name == "anchor-in-list") || strings.Contains(c.before, "--\n") && t.name == "open" {
							return g.Skip()
						}
					}
					// in the same container, other blocks before the target
					first, sep := g.Pick("", ".Other\n====\nother\n====", "[#o]\nother"), "\n\n"
					if in[0].inList && in[1].name == "root" || in[1].inList {
						sep = "\n+\n"
					}
					if first != "" {
						for _, c := range in {
							if c.fence == "====" || c.fence == "|===" {
								return g.Skip()
							}
						}
						first += sep
					}
					ref := "<<%s>>"
					if tier == "thorough" {
						ref = g.Pick("<<%s>>", "xref:%s[]")
					}
					ref = fmt.Sprintf(ref, t.ref)
					label := t.title
					if label == "" {
						label = "[" + t.ref + "]"
					}
					block := before + first + t.src + after + "\n\n//-\n\n"
					src := g.Pick("", "= Doc\n\npreamble\n\n", "== Section\n\n", "[#first]\n.First\nfirst\n\n'''\n\n")
					switch g.Choose(3) {
					case 0:
						src += ref + "\n\n'''\n\n" + block
					case 1:
						if tier != "thorough" {
							return g.Skip()
						}
						src += block + ref
					case 2:
						src += block + "== Other section\n\n* a\n+\n" + ref
					}
					return checkXref(src+"\n", t.id, label, true, lib.Opts{})
				}},
				{Name: "prefix", Gen: func(g *core.Gen) *core.Case {
					set := [][3]string{{"", "_", "_"}, {":idprefix:", "", "_"}, {":idprefix: id-\n:idseparator: -", "id-", "-"}, {":idseparator:", "_", ""}, {":idseparator: .", "_", "."}}
					s := core.PickOf(g, set)
					t := core.PickOf(g, []secTitle{{"Foo", "Foo", "foo"}, {"Foo bar", "Foo bar", "foo bar"}, {"Foo bar 2 baz", "Foo bar 2 baz", "foo bar 2 baz"}})
					id := s[1] + strings.ReplaceAll(t.slug, " ", s[2])
					ref := g.Pick("<<"+id+">>", "xref:"+id+"[]", "<<"+t.src+">>")
					if strings.HasPrefix(ref, "<<F") && !strings.Contains(t.src, " ") {
						return g.Skip()
					}
					if s[2] == "." && strings.HasPrefix(ref, "xref") {
						return g.Skip() // looks like the name of a file
					}
					level := g.Pick("==", "===", "=====")
					src := s[0] + "\n\n" + ref + "\n\n" + level + " " + t.src + "\n\ntext"
					return checkXref(src, id, t.src, true, lib.Opts{})
				}},
				{Name: "other-documents", Gen: func(g *core.Gen) *core.Case {
					doc := g.Pick("other", "dir/other", "../other", "a.b/c-d")
					frag := g.Pick("", "theid", "The_Id")
					label := g.Pick("", "lab", "lab *el*")
					p := core.PickOf(g, xrefPlaces)
					f := "#" + frag
					if frag == "" {
						f = ""
					}
					src := p.before + "xref:" + doc + ".adoc" + f + "[" + label + "]" + p.after + "\n"
					want := strings.ReplaceAll(label, "*el*", "<strong>el</strong>")
					if want == "" {
						want = doc + ".html" + f
					}
					o := lib.Opts{Backend: g.Pick("html5", "xhtml5")}
					return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
						n, err := lib.DOM(src, o)
						if err != nil {
							return err
						}
						r.Outcome(n.Canon())
						for _, a := range n.All("a") {
							if a.Attrs["href"] == doc+".html"+f && markup(a) == want {
								return nil
							}
						}
						return fmt.Errorf("no link to %q with label %q\n%s", doc+".html"+f, want, n.Brief())
					}}
				}},
				{Name: "cycles", Gen: func(g *core.Gen) *core.Case {
					// up to 3 blocks (or terms) whose titles refer to each other (or to themselves)
					var kinds = [][2]string{
						{".", "====\na\n===="},
						{".", "* a"},
						{".", "a"},
						{".", "image::a.png[]"},
						{".", "|===\n|a\n|==="},
						{"", ":: a"},
					}
					type ref struct {
						to   int
						form string
					}
					n := g.Choose(3) + 1
					names := []string{"x", "y", "z"}[:n]
					refs := make([][]ref, n)
					titles, labels := make([]string, n), make([]string, n)
					max := 2
					if n == 3 {
						max = 1
					}
					if tier == "thorough" && n < 3 {
						max++
					}
					for i := 0; i < n; i++ {
						titles[i], labels[i] = fmt.Sprintf("T%d", i), fmt.Sprintf("T%d", i)
						for k := g.Choose(max + 1); k > 0; k-- {
							r := ref{g.Choose(n), g.Pick("<<%s>>", "xref:%s[]", "<<%s,l>>")}
							refs[i] = append(refs[i], r)
							titles[i] += " " + fmt.Sprintf(r.form, names[r.to])
							if r.form == "<<%s,l>>" {
								labels[i] += " l"
							} else {
								labels[i] += " [" + names[r.to] + "]"
							}
						}
					}
					first := core.PickOf(g, kinds)
					src := ""
					var want [][2]string
					for i := 0; i < n; i++ {
						k := first
						if i > 0 && g.Bool() {
							k = kinds[0]
						}
						for _, r := range refs[i] {
							if r.form == "<<%s,l>>" {
								want = append(want, [2]string{"#" + names[r.to], "l"})
							} else {
								want = append(want, [2]string{"#" + names[r.to], labels[r.to]})
							}
						}
						if k[0] == "" {
							src += "[[" + names[i] + "]]" + titles[i]
						} else {
							src += "[#" + names[i] + "]\n." + titles[i] + "\n"
						}
						src += k[1] + "\n\n'''\n\n"
					}
					for i := range names {
						src += "<<" + names[i] + ">> "
						want = append(want, [2]string{"#" + names[i], labels[i]})
					}
					src = strings.TrimSpace(src) + "\n"
					return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
						n, err := lib.DOM(src, lib.Opts{})
						if err != nil {
							return err
						}
						r.Outcome(n.Canon())
						var got [][2]string
						for _, a := range n.All("a") {
							if h := a.Attrs["href"]; h != "" {
								got = append(got, [2]string{h, markup(a)})
							}
						}
						if fmt.Sprint(got) != fmt.Sprint(want) {
							return fmt.Errorf("links %q expected, got %q\n%s", want, got, n.Brief())
						}
						return nil
					}}
				}},
				{Name: "two", Gen: func(g *core.Gen) *core.Case {
					// two targets, one of which has a title which refers to the other
					t := core.PickOf(g, xrefTargets[8:])
					f := core.PickOf(g, xrefForms)
					head := g.Pick("[#other]\n.", "[#other]\n.A ")
					src := head + fmt.Sprintf(f.src, t.ref) + "\ntext\n\n'''\n\n" + t.src + "\n\n'''\n\n<<other>>\n"
					label := f.label
					if label == "" {
						label = t.title
					}
					if label == "" {
						label = "[" + t.ref + "]"
					}
					nested := label
					if f.label == "" { // references are not resolved in labels
						nested = "[" + t.ref + "]"
					}
					pre := strings.TrimPrefix(head, "[#other]\n.")
					o := lib.Opts{Attrs: map[string]interface{}{"lab": "value"}}
					return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
						n, err := lib.DOM(src, o)
						if err != nil {
							return err
						}
						r.Outcome(n.Canon())
						var l []string
						for _, a := range n.All("a") {
							if a.Attrs["href"] != "" {
								l = append(l, a.Attrs["href"]+" "+markup(a))
							}
						}
						got := strings.Join(l, "; ")
						a, b := "#"+t.id+" "+label+"; ", "#other "+pre+nested
						if got != a+b && got != a+"#other "+pre+label {
							return fmt.Errorf("links %q expected, got %q\n%s", a+b, got, n.Brief())
						}
						return nil
					}}
				}},
			}
		},
	})
}
