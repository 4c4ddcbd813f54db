package props

import (
	"fmt"
	"path/filepath"
	"strconv"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// directive reads a line of a file: kind is '+' for the start of a region, '-' for the end, or 0
func tagDirective(line string) (kind byte, name string) {
	for _, k := range []struct {
		kind byte
		s    string
	}{{'+', "tag::"}, {'-', "end::"}} {
		if i := strings.Index(line, k.s); i >= 0 {
			if j := strings.Index(line[i:], "[]"); j >= 0 {
				return k.kind, line[i+len(k.s) : i+j]
			}
		}
	}
	return 0, ""
}

// selectTags is the reference for the selection by tags. ok is false if a name which is asked for has no region
func selectTags(lines, names []string) (selected []string, missing []string) {
	open := map[string]bool{}
	seen := map[string]bool{}
	onlyExcluded := true
	for _, n := range names {
		onlyExcluded = onlyExcluded && strings.HasPrefix(n, "!")
	}
	for _, l := range lines {
		if k, n := tagDirective(l); k != 0 {
			open[n] = k == '+'
			seen[n] = seen[n] || k == '+'
			continue
		}
		in := false
		for _, o := range open {
			in = in || o
		}
		ok := onlyExcluded
		for _, n := range names { // the last name which applies wins
			bare := strings.TrimPrefix(n, "!")
			if bare == "**" || bare == "*" && in || open[bare] {
				ok = bare == n
			}
		}
		if ok {
			selected = append(selected, l)
		}
	}
	for _, n := range names {
		if n := strings.TrimPrefix(n, "!"); n[0] != '*' && !seen[n] {
			missing = append(missing, n)
		}
	}
	return selected, missing
}

// selectLines is the reference for the selection by numbers of lines
func selectLines(lines, ranges []string) (selected []string) {
	for i, l := range lines {
		ok := false
		for _, r := range ranges {
			from, to, found := strings.Cut(r, "..")
			if !found {
				to = from
			}
			a, _ := strconv.Atoi(from)
			b, _ := strconv.Atoi(to)
			ok = ok || a <= i+1 && (i+1 <= b || b == -1)
		}
		if k, _ := tagDirective(l); ok && k == 0 {
			selected = append(selected, l)
		}
	}
	return selected
}

// included is a case with a directive in a document, and the lines that it must give (or an error which mentions all of the words)
func included(file, content, before, directive, after string, want []string, words []string) *core.Case {
	src := before + directive + after
	return &core.Case{Desc: fmt.Sprintf("file=%q content=%q source=%q", file, content, src), Check: func(r *core.Run) error {
		return lib.WithFiles(map[string]string{file: content}, func(dir string) error {
			out, _, err := lib.Convert(src, lib.Opts{Filename: filepath.Join(dir, "test.adoc")})
			if len(words) > 0 {
				if err == nil {
					return fmt.Errorf("no error, output %q", out)
				}
				r.Outcome("error")
				for _, w := range append(words, directive) {
					if !strings.Contains(err.Error(), w) {
						return fmt.Errorf("the error does not mention %q: %v", w, err)
					}
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("error: %w", err)
			}
			r.Outcome(strings.Join(want, "\n"))
			place := before + strings.Join(want, "\n") + after
			if len(want) == 0 {
				place = before + strings.TrimPrefix(after, "\n")
			}
			ref, _, err := lib.Convert(place, lib.Opts{Filename: filepath.Join(dir, "test.adoc")})
			if err != nil {
				return fmt.Errorf("with the lines in place: %w", err)
			}
			if out != ref {
				return fmt.Errorf("lines %q selected: got %q, with the lines in place: %q", want, out, ref)
			}
			return nil
		})
	}}
}

// tagFile picks a file: text lines between directives of the given names
func tagFile(g *core.Gen, max int, names ...string) ([]string, bool) {
	lines := []string{"line 1"}
	open := map[string]bool{}
	for i := 0; i < max; i++ {
		k := g.Choose(2*len(names) + 1)
		if k == 0 {
			break
		}
		n := names[(k-1)/2]
		if (k-1)%2 == 0 {
			if open[n] {
				return nil, false // a region in a region of the same name is not specified
			}
			open[n] = true
			lines = append(lines, "// tag::"+n+"[]")
		} else {
			if !open[n] && i > 0 {
				return nil, false
			}
			open[n] = false
			lines = append(lines, "// end::"+n+"[]")
		}
		lines = append(lines, fmt.Sprintf("line %d", len(lines)+1))
	}
	return lines, true
}

func pickList(g *core.Gen, max int, from []string) []string {
	var l []string
	for i := 0; i < max; i++ {
		k := g.Choose(len(from) + 1)
		if k == 0 && i > 0 {
			break
		}
		if k == 0 {
			return nil
		}
		l = append(l, from[k-1])
	}
	return l
}

func excludedMissing(names, missing []string) bool {
	for _, m := range missing {
		for _, n := range names {
			if n == "!"+m {
				return true
			}
		}
	}
	return false
}

func init() {
	core.Register(&core.Property{
		ID:          "C12",
		Title:       "Includes select the lines that their tags or ranges ask for",
		Bounds:      "all files with up to 4 (thorough: 6) starts and ends of two regions (thorough: also three) and all lists of up to 2 (thorough: 3) names and wildcards, included or excluded; all files of up to 5 lines with all lists of up to 2 (thorough: 3) ranges; all notations of directives and places of includes",
		Assumptions: []string{"regions in regions of the same name, negative numbers other than an end of -1, and the exclusion of a region that the file does not have are not specified"},
		Families: func(tier string) []core.Family {
			nd, ns, nr, nv := 4, 2, 2, 3
			if tier == "thorough" {
				nd, ns, nr, nv = 6, 3, 3, 5
			}
			byTag := func(g *core.Gen, lines, names []string) *core.Case {
				want, missing := selectTags(lines, names)
				if excludedMissing(names, missing) {
					return g.Skip()
				}
				return included("f.go", strings.Join(lines, "\n")+"\n", "----\n", "include::f.go[tags="+strings.Join(names, ";")+"]", "\n----\n", want, missing)
			}
			fams := []core.Family{
				{Name: "tags", Gen: func(g *core.Gen) *core.Case {
					names := pickList(g, ns, []string{"a", "b", "*", "**", "!a", "!b", "!*", "!**"})
					if names == nil {
						return g.Skip()
					}
					lines, ok := tagFile(g, nd, "a", "b")
					if !ok {
						return g.Skip()
					}
					return byTag(g, lines, names)
				}},
				{Name: "lines", Gen: func(g *core.Gen) *core.Case {
					var all []string
					for i := 1; i <= 6; i++ {
						all = append(all, fmt.Sprint(i), fmt.Sprintf("%d..-1", i))
						for j := 1; j <= 6; j++ {
							all = append(all, fmt.Sprintf("%d..%d", i, j))
						}
					}
					ranges := pickList(g, nr, all)
					if ranges == nil {
						return g.Skip()
					}
					n := 5 - g.Choose(6)
					var lines []string
					for i := 1; i <= n; i++ {
						lines = append(lines, fmt.Sprintf("line %d", i))
					}
					if n >= 3 && g.Bool() {
						lines[1] = "// tag::a[]"
					}
					return included("f.go", strings.Join(lines, "\n")+"\n", "----\n", "include::f.go[lines="+strings.Join(ranges, ";")+"]", "\n----\n", selectLines(lines, ranges), nil)
				}},
				{Name: "notations", Gen: func(g *core.Gen) *core.Case {
					g.SetBudget(nv)
					pick := func(ss ...string) string { return ss[g.Dev(len(ss))] }
					ext := pick("go", "adoc", "txt", "asciidoc", "html", "")
					file := "f." + ext
					if ext == "" {
						file = "f"
					}
					form := pick("// %s", "# %s", "<!-- %s -->", "%s", "  /* %s */", ";%s", "-- %s", "%s trailing", "//%s")
					names := [2]string{"a", "b"}
					if g.Dev(2) == 1 {
						names = [2]string{"Region1", "ab"}
					}
					d := func(s string) string { return fmt.Sprintf(form, s) }
					lines := []string{"line 1", d("tag::" + names[0] + "[]"), "line 3", d("tag::" + names[1] + "[]"), "line 5", d("end::" + names[1] + "[]"), "line 7", d("end::" + names[0] + "[]"), "line 9", d("tag::" + names[1] + "[]"), "line 11", d("end::" + names[1] + "[]")}
					sep := pick(";", ",")
					quote := pick("", `"`, `'`)
					other := pick("", "indent=0", "x")
					attrs := ""
					var want, missing []string
					switch k := g.Choose(4); k {
					case 0:
						if sep == "," || quote != "" {
							return g.Skip()
						}
						for _, l := range lines {
							if t, _ := tagDirective(l); t == 0 {
								want = append(want, l)
							}
						}
					case 1:
						r := pickList(g, 2, []string{"1", "3..5", "9..-1", "40"})
						if r == nil {
							return g.Skip()
						}
						if len(r) > 1 && sep == "," && quote == "" {
							return g.Skip()
						}
						attrs = "lines=" + quote + strings.Join(r, sep) + quote
						want = selectLines(lines, r)
					default:
						r := pickList(g, 2, []string{names[0], "!" + names[1], "**", "*"})
						if r == nil {
							return g.Skip()
						}
						if len(r) > 1 && sep == "," && quote == "" {
							return g.Skip()
						}
						attrs = []string{"", "", "tag=", "tags="}[k] + quote + strings.Join(r, sep) + quote
						want, missing = selectTags(lines, r)
					}
					if other == "x" {
						attrs = "x=y," + attrs
					} else if other != "" {
						attrs += "," + "x=y"
					}
					attrs = strings.Trim(attrs, ",")
					nl := pick("\n", "\r\n")
					content := strings.Join(lines, nl)
					if g.Dev(2) == 0 {
						content += nl
					}
					return included(file, content, "----\n", "include::"+file+"["+attrs+"]", "\n----\n", want, missing)
				}},
				{Name: "places", Gen: func(g *core.Gen) *core.Case {
					p := core.PickOf(g, []struct{ before, after string }{
						{"", "\n"}, {"a\n", "\nb\n"}, {"a\n\n", "\n\nb\n"}, {"* a\n", "\nb\n"}, {"* a\n+\n", "\n"}, {"* a\n+\n--\n", "\n--\n\nb\n"},
						{"|===\n|", "\n|===\n"}, {"|===\na|\n", "\n|===\n"}, {"====\n", "\n====\n"}, {"____\nb\n\n", "\n____\n"}, {"....\n", "\n....\n"}, {"```\n", "\n```\n"}, {"++++\n", "\n++++\n"},
						{"[source,go]\n----\n", "\nb\n----\n"}, {"== S\n\n", "\n\n== T\n"}, {"a::\n", "\n"}, {"NOTE: a\n", "\n"}, {"[NOTE]\n", "\n"}, {"[verse]\n", "\n"},
						{"ifdef::x[]\nendif::[]\n", "\n"}, {":x: y\n\n", "\n"}, {"////\n", "\n////\na\n"},
					})
					if strings.HasSuffix(p.before, "|") {
						return g.Skip() // a directive has its own line
					}
					ext := g.Pick("go", "adoc")
					sel := g.Choose(6)
					lines := []string{"line 1", "// tag::a[]", "line 3", "// tag::b[]", "line 5", "// end::b[]", "line 7", "// end::a[]", "line 9"}
					attrs, want := "", []string(nil)
					switch sel {
					case 0:
						want, _ = selectTags(lines, []string{"**"})
					case 1:
						attrs = "lines=3..7"
						want = selectLines(lines, []string{"3..7"})
					case 2:
						attrs = "tags=a"
						want, _ = selectTags(lines, []string{"a"})
					case 3:
						attrs = "tags=a;!b"
						want, _ = selectTags(lines, []string{"a", "!b"})
					case 4:
						attrs = "lines=1"
						want = lines[:1]
					case 5:
						attrs = "tag=b"
						want = []string{"line 5"}
					}
					return included("f."+ext, strings.Join(lines, "\n")+"\n", p.before, "include::f."+ext+"["+attrs+"]", p.after, want, nil)
				}},
			}
			if tier == "thorough" {
				fams = append(fams, core.Family{Name: "tags-3", Gen: func(g *core.Gen) *core.Case {
					names := pickList(g, 2, []string{"a", "b", "c", "*", "**", "!a", "!b", "!c", "!*"})
					if names == nil {
						return g.Skip()
					}
					lines, ok := tagFile(g, 6, "a", "b", "c")
					if !ok {
						return g.Skip()
					}
					return byTag(g, lines, names)
				}})
			}
			return fams
		},
	})
}
