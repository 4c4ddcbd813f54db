package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// delimKind tells the kind of block that a line opens: verbatim (l, L, f), raw (p), comment (c) or compound (e, s, q, o)
func delimKind(line string) byte {
	line = strings.TrimRight(line, " \t")
	if line == "--" {
		return 'o'
	}
	if strings.HasPrefix(line, "```") {
		if t := strings.Trim(line, "`"); t != "" {
			return 'm'
		}
		return 'f'
	}
	if len(line) < 4 || strings.Trim(line, line[:1]) != "" {
		return 0
	}
	return map[byte]byte{'-': 'l', '.': 'L', '+': 'p', '/': 'c', '=': 'e', '*': 's', '_': 'q'}[line[0]]
}

// closes tells if a line closes the block that another opened
func closes(open, line string) bool {
	o, l := strings.TrimRight(open, " \t"), strings.TrimRight(line, " \t")
	if delimKind(open) == 'm' {
		return l == "```"
	}
	return o == l
}

// delimModel is the reference: blocks end at the first line with their own delimiter, or at the end of their container
func delimModel(lines []string) string {
	sb := &strings.Builder{}
	var para []string
	flush := func() {
		if para != nil {
			sb.WriteString("(" + strings.Join(para, " ") + ")")
		}
		para = nil
	}
	for i := 0; i < len(lines); i++ {
		k := delimKind(lines[i])
		switch {
		case k != 0:
			flush()
			j := i + 1
			for j < len(lines) && !closes(lines[i], lines[j]) {
				j++
			}
			content := lines[i+1 : j]
			switch k {
			case 'c':
			case 'e', 's', 'q', 'o':
				sb.WriteString(string(k) + "[" + delimModel(content) + "]")
			default:
				for len(content) > 0 && strings.TrimSpace(content[0]) == "" {
					content = content[1:]
				}
				for len(content) > 0 && strings.TrimSpace(content[len(content)-1]) == "" {
					content = content[:len(content)-1]
				}
				if k == 'p' {
					if len(content) > 0 {
						sb.WriteString("p{" + strings.Join(strings.Fields(strings.Join(content, " ")), " ") + "}")
					}
				} else {
					out := make([]string, len(content))
					for i, l := range content {
						out[i] = strings.TrimRight(l, " \t")
					}
					sb.WriteString(string(k) + "{" + strings.Join(out, "\n") + "}")
				}
			}
			i = j
		case strings.TrimSpace(lines[i]) == "":
			flush()
		default:
			para = append(para, lines[i])
		}
	}
	flush()
	return sb.String()
}

func verbatimText(n *lib.Node) string {
	l := strings.Split(n.Content(), "\n")
	for i := range l {
		l[i] = strings.TrimRight(l[i], " \t")
	}
	return strings.Join(l, "\n")
}

// delimCanon reads the output
func delimCanon(kids []*lib.Node) string {
	sb := &strings.Builder{}
	raw := "" // consecutive raw texts are merged in the output
	flush := func() {
		if raw != "" {
			sb.WriteString("p{" + raw + "}")
		}
		raw = ""
	}
	for _, n := range kids {
		if n.Tag == "" {
			if t := strings.Join(strings.Fields(n.Text), " "); t != "" {
				raw = strings.TrimSpace(raw + " " + t)
			}
			continue
		}
		flush()
		switch {
		case n.Is("p"):
			sb.WriteString("(" + n.Inline() + ")")
		case n.Is("div.paragraph"):
			sb.WriteString(delimCanon(n.Kids))
		case n.Is("div.listingblock"), n.Is("div.literalblock"):
			k := "l"
			pre := n.First("pre")
			if pre == nil {
				sb.WriteString("?" + n.Canon())
				break
			}
			if c := pre.Child("code"); c != nil {
				k = "f"
				if c.Attrs["data-lang"] != "" {
					k = "m"
				}
			} else if n.Is("div.literalblock") {
				k = "L"
			}
			sb.WriteString(k + "{" + verbatimText(pre) + "}")
		case n.Is("div.exampleblock"), n.Is("div.sidebarblock"), n.Is("div.openblock"):
			k := map[string]string{"exampleblock": "e", "sidebarblock": "s", "openblock": "o"}[n.Attrs["class"]]
			if c := n.Children(); len(c) == 1 && c[0].Is("div.content") {
				sb.WriteString(k + "[" + delimCanon(c[0].Kids) + "]")
			} else {
				sb.WriteString("?" + n.Canon())
			}
		case n.Is("div.quoteblock"):
			if c := n.Children(); len(c) == 1 && c[0].Is("blockquote") {
				sb.WriteString("q[" + delimCanon(c[0].Kids) + "]")
			} else {
				sb.WriteString("?" + n.Canon())
			}
		default:
			sb.WriteString("?" + n.Canon())
		}
	}
	flush()
	return sb.String()
}

// raw texts which follow one another are not distinct in the output
func mergeRaw(s string) string { return strings.ReplaceAll(s, "}p{", " ") }

func delimCase(lines []string) *core.Case {
	src := strings.Join(lines, "\n") + "\n"
	exp := mergeRaw2(delimModel(lines))
	return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
		d, err := lib.DOM(src, lib.Opts{})
		if err != nil {
			return err
		}
		got := delimCanon(body(d).Kids)
		r.Outcome(got)
		if got != exp {
			return fmt.Errorf("the blocks are not as expected: expected\n%s\ngot\n%s", exp, got)
		}
		return nil
	}}
}

// mergeRaw2 merges the consecutive raw texts of the model ("p{a}p{b}"), but not a verbatim block followed by raw text
func mergeRaw2(s string) string {
	for {
		i := strings.Index(s, "p{")
		if i < 0 {
			return s
		}
		j := i + strings.Index(s[i:], "}")
		if !strings.HasPrefix(s[j:], "}p{") {
			return s[:j+1] + mergeRaw2(s[j+1:])
		}
		s = s[:j] + " " + s[j+len("}p{"):]
	}
}

// sequences of lines: the first one opens a block
func delimSequences(name string, n int, first, alphabet []string) core.Family {
	return core.Family{Name: name, Gen: func(g *core.Gen) *core.Case {
		var lines []string
		for i := 0; i < n; i++ {
			l := ""
			if i == 0 {
				l = core.PickOf(g, first)
			} else {
				k := g.Choose(len(alphabet) + 1)
				if k == 0 {
					break
				}
				l = alphabet[k-1]
			}
			if l == "text" {
				l = fmt.Sprintf("t%d", i)
			} else if l == "(text" {
				l = fmt.Sprintf("(t%d", i)
			}
			lines = append(lines, l)
		}
		if len(lines) > 1 && lines[len(lines)-1] == "" {
			return g.Skip()
		}
		g.State(strings.Join(lines, "\n"))
		return delimCase(lines)
	}}
}

// startsBlock tells if the first line is the delimiter of a block, or has attributes of a block
func startsBlock(src string) bool {
	l := strings.SplitN(src, "\n", 2)[0]
	return delimKind(l) != 0 || l == "|===" || len(l) > 2 && l[0] == '[' && l[len(l)-1] == ']'
}

// verbatimLines have a meaning outside of verbatim blocks
var verbatimLines = []string{"a", "", " a", "   b", "* a", "** a", ". a", "a::", "+", "NOTE: a", "== a", "= a", "// a", ".a", "[a]", "[[a]]", "[source]", "'''", "|===", "|a", "image::a.png[]", "toc::[]",
	"a *b* `c` _d_", "{a}", "{counter:x}", "a -- b (C) ...", "<<a>>", "https://a.b[c]", "footnote:[a]", "((a))", "a +", "<a> & \"b'", "+++a+++", "pass:[a]", ":a: b", "* [x] a", "> a", "-- a", "--", "====", "-----", "...", "a\\*b*", "\\{a}", "btn:[a]", "a;;", "1. a", "[quote, a]", "include:a[]", "ifdef", "x\ty", "---", "***", "``", "//", "/// a", "~a~ ^b^", "#a#", "**a**b", "%", "é…", "\u00a0a"}

func init() {
	core.Register(&core.Property{
		ID:          "C19",
		Title:       "Delimited blocks end at their own delimiter, and verbatim text is kept",
		Bounds:      fmt.Sprintf("all sequences of up to 4 lines (thorough: 5) among %d (delimiters of 10 kinds and 2 lengths, text, blank lines), and of up to 6 and 7 (7 and 8) among 6; all triples of delimiters of lengths up to 9 (12), with and without spaces at the end; all pairs of blocks of the corpus that are adjacent without blank line; all contents of up to 2 (3) of %d special lines in 10 kinds of verbatim blocks", 18, len(verbatimLines)),
		Assumptions: []string{"blocks are read as raw lines up to their closing delimiter, also when they contain other blocks (as Asciidoctor does)"},
		Families: func(tier string) []core.Family {
			n := 0
			if tier == "thorough" {
				n = 1
			}
			all := []string{"----", "-----", "....", ".....", "```", "```go", "++++", "+++++", "////", "/////", "====", "=====", "****", "____", "--", "text", "(text", ""}
			verb := []struct{ open, close string }{{"----", "----"}, {"....", "...."}, {"```", "```"}, {"```go", "```"}, {"[source]\n----", "----"}, {"[listing]\n....", "...."}, {"[literal]\n----", "----"}, {"[source,go,linenums]\n----", "----"}, {"====\n----", "----\n===="}, {"* a\n+\n----", "----"}}
			return []core.Family{
				delimSequences("delimiters", 4+n, all, all),
				delimSequences("compound", 7+n, []string{"====", "--"}, []string{"====", "=====", "--", "text", "____", ""}),
				delimSequences("verbatim", 6+n, []string{"----", "===="}, []string{"----", "-----", "....", "text", "", "===="}),
				delimSequences("comments", 6+n, []string{"////", "text"}, []string{"////", "/////", "----", "text", "", "===="}),
				{Name: "lengths", Gen: func(g *core.Gen) *core.Case {
					c := g.Pick("-", ".", "`", "+", "/", "=", "*", "_")
					min, max := 4, 9+3*n
					if c == "`" {
						min = 3
					}
					l := func() string {
						s := strings.Repeat(c, min+g.Choose(max-min+1))
						if g.Bool() {
							s += " \t"
						}
						return s
					}
					return delimCase([]string{l(), "t1", l(), "t2", l(), "t3"})
				}},
				{Name: "adjacent", Gen: func(g *core.Gen) *core.Case {
					a, b := core.PickOf(g, corpusBlocks), core.PickOf(g, corpusBlocks)
					s1, _, _ := fill(a.src, "a")
					s2, _, _ := fill(b.src, "b")
					if !delimited(a.src) && !startsBlock(b.src) || strings.HasSuffix(s1, "\n") || a.src == "---" {
						return g.Skip()
					}
					if (a.has(fList) || a.name == "markdown-quote") && !(startsBlock(b.src) && b.src[0] != '[') || a.name == "markdown-quote" {
						return g.Skip() // text and attributes may belong to the last item
					}
					src, ref := s1+"\n"+s2+"\n", s1+"\n\n"+s2+"\n"
					return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
						d, err := lib.DOM(src, lib.Opts{})
						if err != nil {
							return err
						}
						e, err := lib.DOM(ref, lib.Opts{})
						if err != nil {
							return err
						}
						r.Outcome(d.Canon())
						if d.Canon() != e.Canon() {
							return fmt.Errorf("not the same as with a blank line: %s, with a blank line\n%s", d.Brief(), e.Brief())
						}
						return nil
					}}
				}},
				{Name: "content", Gen: func(g *core.Gen) *core.Case {
					v := core.PickOf(g, verb)
					var lines []string
					for i := 0; i < 2+n; i++ {
						k := g.Choose(len(verbatimLines) + 1)
						if k == 0 {
							break
						}
						lines = append(lines, verbatimLines[k-1])
					}
					if strings.HasPrefix(v.open, "====") && strings.Contains(strings.Join(lines, "\n"), "====") {
						return g.Skip()
					}
					if len(lines) == 0 || g.Bool() {
						lines = append(append([]string{"x"}, lines...), "x")
					} else if lines[0] == "" || lines[len(lines)-1] == "" {
						return g.Skip() // blank lines at the ends are dropped
					}
					exp := strings.Join(lines, "\n")
					src := v.open + "\n" + exp + "\n" + v.close + "\n"
					return &core.Case{Desc: fmt.Sprintf("source=%q", src), Check: func(r *core.Run) error {
						d, err := lib.DOM(src, lib.Opts{})
						if err != nil {
							return err
						}
						pre := d.All("pre")
						if len(pre) != 1 {
							return fmt.Errorf("%d verbatim blocks\n%s", len(pre), d.Brief())
						}
						got := pre[0].Content()
						r.Outcome(got)
						if got != exp {
							return fmt.Errorf("content expected\n%q, got\n%q", exp, got)
						}
						return nil
					}}
				}},
			}
		},
	})
}
