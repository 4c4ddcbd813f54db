package props

import (
	"fmt"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/lib"
)

// inPlace: the document which includes the files gives the same as the one with everything in its place
func inPlace(src, ref string, files map[string]string, o lib.Opts) *core.Case {
	names := []string{}
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	desc := fmt.Sprintf("source=%q", src)
	for _, n := range names {
		desc += fmt.Sprintf(" %s=%q", n, files[n])
	}
	return &core.Case{Desc: desc, Check: func(r *core.Run) error {
		return lib.WithFiles(files, func(dir string) error {
			o := o
			o.Filename = filepath.Join(dir, "docs", "test.adoc")
			src := strings.ReplaceAll(src, "%DIR%", dir)
			for n, c := range files {
				if strings.Contains(c, "%DIR%") {
					return fmt.Errorf("harness: %s", n)
				}
			}
			out, _, err := lib.Convert(src, o)
			if err != nil {
				return fmt.Errorf("error: %w", err)
			}
			want, _, err := lib.Convert(ref, o)
			if err != nil {
				return fmt.Errorf("error without includes: %w", err)
			}
			r.Outcome(want)
			if out != want {
				return fmt.Errorf("got %q, with the content of the files in place (%q): %q", out, ref, want)
			}
			return nil
		})
	}}
}

// pieces of documents whose meaning depends on what is before, or changes what is after
var includePieces = []string{
	"text {x}",
	"",
	":x: v",
	":!x:",
	"ifdef::x[]\nwith x\nendif::[]",
	"ifndef::x[without x]",
	"ifeval::[\"{x}\" == \"v\"]\n:x: w\nendif::[]",
	"----",
	"====",
	"== Section {x}",
	"* item",
	"+",
	"[[id]]",
	"|===",
	"|cell",
	"<<_section_v>> {counter:c}",
	":y: {x}",
	"ifeval::[\"{y}\" == \"v\"]\ny is v\nendif::[]",
	"////",
	".title",
}

// file of sections, for level offsets
var offsetFiles = []string{
	"== A\n\na\n\n=== B\n\nb",
	"== A\n\n----\n== B\n----\n\n=== C\n\n[x]\n== D",
	"a\n\n== A\n",
	"== A\n\n====\n== B\n====\n\n....\na\n....\n\n=== C",
	"ifdef::foo[]\n== No\n\nendif::[]\n== A\n\nifndef::foo[]\n=== B\n\nendif::[]\nc",
	"[#i.r]\n== A `b` == c\n\n==B\n\n ==  C\n",
	"== A\n\n//// \n== B\n////\n\n==  C\n\n```\n== D\n```\n== E",
	"==\tA\n\n== B",
	"== A\n\n====\n....\n== B\n....\n====\n\n== C\n\n****\n=====\n----\n== D\n----\n=====\n****\n\n== E",
	"== A\n\n-----\n----\n== B\n-----\n\n== C\n\n....\n----\n== D\n....\n\n=== E",
}

// offset is the reference: it shifts the titles of sections outside of delimited blocks
func offset(content string, by int) string {
	lines := strings.Split(content, "\n")
	open := ""
	for i, l := range lines {
		t := strings.TrimRight(l, " ")
		switch {
		case open != "":
			if t == open {
				open = ""
			}
		case delimKind(l) != 0:
			open = t
		default:
			if m := regexp.MustCompile(`^(=+)[ \t]`).FindStringSubmatch(l); m != nil {
				n := len(m[1]) + by
				if n < 1 {
					n = 1
				}
				lines[i] = strings.Repeat("=", n) + l[len(m[1]):]
			}
		}
	}
	return strings.Join(lines, "\n")
}

func init() {
	core.Register(&core.Property{
		ID:          "C11",
		Title:       "Including a file is the same as having its content in its place",
		Bounds:      "all sequences of up to 3 (thorough: 4) of 20 pieces whose meaning depends on each other, cut at all places into a document, a file and a file that it includes; all blocks in all containers as a file; all chains of three files in all directories; all offsets of two nested files of sections; all extensions; all failing includes",
		Assumptions: []string{"conditions that start and end in different files, and absolute offsets of files that do not start with a title of level 0 are not specified"},
		Families: func(tier string) []core.Family {
			max := 3
			if tier == "thorough" {
				max = 4
			}
			return []core.Family{
				{Name: "in-place", Gen: func(g *core.Gen) *core.Case {
					var p []string
					for len(p) < max {
						k := g.Choose(len(includePieces) + 1)
						if k == 0 {
							break
						}
						p = append(p, includePieces[k-1])
					}
					if len(p) == 0 {
						return g.Skip()
					}
					// the first file has p[i:j], the second one p[k:l]
					i := g.Choose(len(p))
					j := i + 1 + g.Choose(len(p)-i)
					k := j
					if len(p) < 3 || tier == "thorough" {
						k = i + g.Choose(j-i+1) // (quick: no file in a file, for the longest sequences)
					}
					l := k
					if k < j {
						l = k + 1 + g.Choose(j-k)
					} else {
						k, l = -1, -1
					}
					files := map[string]string{"other/f.adoc": "wrong"}
					f := append([]string{}, p[i:j]...)
					if k >= 0 {
						files["docs/sub/g.adoc"] = strings.Join(p[k:l], "\n") + "\n"
						f = append(append(append([]string{}, p[i:k]...), "include::g.adoc[]"), p[l:j]...)
					}
					files["docs/sub/f.adoc"] = strings.Join(f, "\n") + "\n"
					d := append(append(append([]string{":before: 1", ""}, p[:i]...), "include::sub/f.adoc[]"), p[j:]...)
					tail := "\n\nend {x} {y} {counter:c}\n\nifdef::x[x is set]\n\nifdef::y[y is set]\n"
					return inPlace(strings.Join(d, "\n")+tail, ":before: 1\n\n"+strings.Join(p, "\n")+tail, files, lib.Opts{})
				}},
				{Name: "blocks", Gen: func(g *core.Gen) *core.Case {
					c := core.PickOf(g, containers)
					b, ok := pickBlock(g, c)
					if !ok {
						return g.Skip()
					}
					ext := g.Pick("adoc", "inc")
					if ext == "inc" && regexp.MustCompile(`(?m)^(if|endif|include|\\)`).MatchString(b.src) {
						return g.Skip()
					}
					before, _, _ := fill(c.before, "A")
					content, _, _ := fill(b.src, "B")
					nl := g.Pick("\n", "", "\r\n")
					file := content
					if nl == "\r\n" {
						file = strings.ReplaceAll(content, "\n", "\r\n")
					}
					after := c.after + "\n"
					if !c.inList {
						after = "\n" + strings.TrimPrefix(c.after, "\n") + "\n"
					}
					return inPlace(before+"include::f."+ext+"[]"+after, before+content+after, map[string]string{"docs/f." + ext: file + nl}, lib.Opts{})
				}},
				{Name: "raw-files", Gen: func(g *core.Gen) *core.Case {
					// directives of files which are not in AsciiDoc are text
					content := strings.Join([]string{g.Pick("a", "include::g.adoc[]", "ifdef::x[]", ":x: 1", "== S"), g.Pick("b", "endif::[]", "ifndef::x[y]", "include::missing.adoc[]", "{x}", "ifeval::[1 == 2]")}, "\n")
					p := core.PickOf(g, []struct{ before, after string }{{"----\n", "\n----\n"}, {"[source]\n----\n", "\nend\n----\n"}, {"....\n", "\n....\n"}, {"```\n", "\n```\n"}})
					ext := g.Pick("go", "html", "yaml", "ADOC", "adoc.go")
					ref := regexp.MustCompile(`(?m)^(\\?(include|ifdef|ifndef|ifeval|endif)::)`).ReplaceAllString(content, "\\$1")
					return inPlace(p.before+"include::f."+ext+"[]"+p.after, p.before+ref+p.after, map[string]string{"docs/f." + ext: content + "\n", "docs/g.adoc": "wrong\n"}, lib.Opts{})
				}},
				{Name: "extensions", Gen: func(g *core.Gen) *core.Case {
					ext := g.Pick("adoc", "asciidoc", "asc", "ad", "txt", "x.adoc", "go", "md", "adoc.erb", "xadoc", "doc", "text", "")
					adoc := ext != "" && strings.Contains(" adoc asciidoc asc ad txt x.adoc ", " "+ext+" ")
					name := strings.TrimSuffix("f."+ext, ".")
					content := g.Pick("ifdef::x[]\na\nendif::[]\nb", "include::g.adoc[]\nb", "ifndef::x[a]\nb", "\\include::g.adoc[]\nb", "ifeval::[1 == 1]\na\nendif::[]")
					ref := content
					if adoc {
						ref = map[string]string{"ifdef": "b", "inclu": "g\nb", "ifnde": "a\nb", "\\incl": "\\include::g.adoc[]\nb", "ifeva": "a"}[content[:5]]
					} else if content[0] == '\\' {
						return g.Skip() // cannot be written in place
					} else {
						ref = regexp.MustCompile(`(?m)^(\\?(include|ifdef|ifndef|ifeval|endif)::)`).ReplaceAllString(content, "\\$1")
					}
					return inPlace("----\ninclude::"+name+"[]\n----\n", "----\n"+ref+"\n----\n", map[string]string{"docs/" + name: content + "\n", "docs/g.adoc": "g\n"}, lib.Opts{})
				}},
				{Name: "paths", Gen: func(g *core.Gen) *core.Case {
					// a chain of files with the same names in all directories
					dirs := []string{"docs", "docs/sub", "docs/sub/deep", "other", ""}
					files := map[string]string{}
					for _, d := range dirs {
						for _, n := range []string{"a", "b", "c"} {
							files[path.Join(d, n+".adoc")] = fmt.Sprintf("%s of %s\n", n, d)
						}
					}
					cur, doc := "docs", "docs/test.adoc"
					files[doc] = ":sub: sub\n:up: ..\n:name: a\n\nstart\n"
					ref := files[doc]
					attr := g.Bool()
					abs := false
					for _, n := range []string{"a", "b", "c"}[:1+g.Choose(3)] {
						to := core.PickOf(g, dirs)
						rel, _ := filepath.Rel("/"+cur, "/"+to)
						target := path.Join(rel, n+".adoc")
						if g.Bool() {
							target = "./" + rel + "/" + n + ".adoc"
						}
						if attr {
							target = strings.ReplaceAll(strings.ReplaceAll(target, "sub", "{sub}"), "..", "{up}")
							target = strings.Replace(target, "a.adoc", "{name}.adoc", 1)
						}
						if cur == "docs" && doc == "docs/test.adoc" && g.Bool() {
							abs = true
							target = "%DIR%/" + path.Join(to, n+".adoc")
						}
						files[doc] += "\ninclude::" + target + "[]\n\nafter " + n + "\n"
						cur, doc = to, path.Join(to, n+".adoc")
					}
					_ = abs
					var flat func(f string) string
					flat = func(f string) string {
						out := ""
						for _, l := range strings.Split(strings.TrimSuffix(files[f], "\n"), "\n") {
							if strings.HasPrefix(l, "include::") {
								t := strings.NewReplacer("{sub}", "sub", "{up}", "..", "{name}", "a").Replace(strings.TrimSuffix(strings.TrimPrefix(l, "include::"), "[]"))
								if strings.HasPrefix(t, "%DIR%") {
									t = strings.TrimPrefix(t, "%DIR%/")
								} else {
									t = path.Join(path.Dir(f), t)
								}
								out += flat(t)
							} else {
								out += l + "\n"
							}
						}
						return out
					}
					ref = flat("docs/test.adoc")
					src := files["docs/test.adoc"]
					delete(files, "docs/test.adoc")
					return inPlace(src, ref, files, lib.Opts{})
				}},
				{Name: "offsets", Gen: func(g *core.Gen) *core.Case {
					offs := []string{"", "+1", "+2", "+0", "-1", "-2", "0", "1", "2"}
					o1, o2 := core.PickOf(g, offs), core.PickOf(g, offs)
					c1, c2 := core.PickOf(g, offsetFiles), core.PickOf(g, offsetFiles)
					v := map[string]int{"+1": 1, "+2": 2, "-1": -1, "-2": -2, "1": 1, "2": 2}
					absolute := func(o string) bool { return o != "" && o[0] != '+' && o[0] != '-' }
					if absolute(o1) {
						c1 = "= Part\n\n" + c1
					}
					if absolute(o2) {
						c2 = "= Part\n\n" + c2
					}
					at := g.Choose(3)
					attr := func(o string) string {
						if o == "" {
							return ""
						}
						return "leveloffset=" + o
					}
					inc := "include::g.adoc[" + attr(o2) + "]"
					by2 := v[o1] + v[o2]
					if absolute(o2) {
						by2 = v[o2]
					}
					r1, r2 := offset(c1, v[o1]), offset(c2, by2)
					if v[o1] < 0 || by2 < 0 || absolute(o1) || absolute(o2) {
						// the levels are limited to 0, one file after the other
						if strings.Contains(r1+r2, "\n= ") && strings.Contains(r1+r2, "\n= P") == false || v[o1]+1 < 0 || by2+1 < 0 {
							return g.Skip()
						}
					}
					f, ref := c1, r1
					switch at {
					case 1:
						f, ref = c1+"\n\n"+inc, r1+"\n\n"+r2
					case 2:
						if absolute(o1) {
							return g.Skip()
						}
						f, ref = inc+"\n\n"+c1, r2+"\n\n"+r1
					case 0:
						if o2 != "" || c2 != offsetFiles[0] {
							return g.Skip()
						}
					}
					if regexp.MustCompile(`(?m)^={7,}[ \t]`).MatchString(ref) {
						return g.Skip()
					}
					files := map[string]string{"docs/f.adoc": f + "\n", "docs/g.adoc": c2 + "\n"}
					head, tail := "= T\n\ntext\n\n", "\n\n== End\n\nlast\n"
					return inPlace(head+"include::f.adoc["+attr(o1)+"]"+tail, head+ref+tail, files, lib.Opts{})
				}},
				{Name: "failures", Gen: func(g *core.Gen) *core.Case {
					return failingInclude(g)
				}},
				{Name: "skipped", Gen: func(g *core.Gen) *core.Case {
					// includes which are not processed
					l := "include::" + g.Pick("missing.adoc", "f.adoc", "test.adoc", "loop.adoc") + g.Pick("[]", "[lines=x]", "[tag=none]", "[leveloffset=z]")
					files := map[string]string{"docs/f.adoc": "wrong\n", "docs/loop.adoc": "include::loop.adoc[]\n"}
					switch g.Choose(6) {
					case 0:
						return inPlace("a\n\nifdef::none[]\n"+l+"\nendif::[]\n\nb\n", "a\n\n\nb\n", files, lib.Opts{})
					case 1:
						return inPlace("a\n\nifndef::before[]\nifdef::x[]\n"+l+"\nendif::[]\nendif::[]\n\nb\n", "a\n\n\nb\n", files, lib.Opts{Attrs: map[string]interface{}{"before": "", "x": ""}})
					case 2, 3: // escaped, or not at the start of the line
						esc := g.Pick("\\", "//", "a ", " ", "\\\\")
						want := map[string]string{"\\": "", "//": "//", "a ": "a ", " ": "", "\\\\": "\\\\"}[esc]
						return &core.Case{Desc: fmt.Sprintf("source=%q", esc+l), Check: func(r *core.Run) error {
							d, err := lib.DOM("----\n"+esc+l+"\n----\n", lib.Opts{})
							if err != nil {
								return err
							}
							if got := strings.TrimSpace(d.Content()); got != want+l {
								return fmt.Errorf("got %q", got)
							}
							return nil
						}}
					case 4:
						f := map[string]string{"docs/f.adoc": "ifdef::none[]\n" + l + "\nendif::[]\nc\n"}
						return inPlace("a\ninclude::f.adoc[]\nb\n", "a\nc\nb\n", f, lib.Opts{})
					default:
						f := map[string]string{"docs/f.adoc": "ifdef::none[]\nendif::[]\n"}
						return inPlace("a\ninclude::f.adoc[]\nb\n", "a\nb\n", f, lib.Opts{})
					}
				}},
			}
		},
	})
}

// failingInclude: a file which cannot be included makes the conversion fail, and the error has the directive
func failingInclude(g *core.Gen) *core.Case {
	files := map[string]string{"docs/ok.adoc": "ok\n\n// tag::a[]\nin a\n// end::a[]\n", "docs/loop.adoc": "a\n\ninclude::loop.adoc[]\n", "docs/ping.adoc": "include::pong.adoc[]\n", "docs/pong.adoc": "include::ping.adoc[]\n", "docs/dir/x.adoc": "x\n"}
	bad := g.Pick("missing.adoc[]", "nodir/ok.adoc[]", "dir[]", "{none}.adoc[]", "ok.adoc[lines=x]", "ok.adoc[lines=1..z]", "ok.adoc[tag=none]", "ok.adoc[tags=a;none]", "ok.adoc[leveloffset=z]", "loop.adoc[]", "ping.adoc[]", "missing.txt[]", "missing.go[]", "ok.adoc/x.adoc[]")
	p := core.PickOf(g, []struct{ before, after string }{{"", "\n"}, {"a\n", "\nb\n"}, {"----\n", "\n----\n"}, {"* a\n+\n", "\n"}, {"|===\na|\n", "\n|===\n"}, {"= T\n\n", "\n\n== S\n"}, {"include::ok.adoc[]\n\n", "\n"}, {"ifndef::x[]\n", "\nendif::[]\n"}})
	depth := g.Choose(3)
	directive := "include::" + bad
	inc := directive
	for i := 0; i < depth; i++ {
		f := fmt.Sprintf("n%d.adoc", i)
		files["docs/"+f] = "c\n\n" + inc + "\n\nd\n"
		inc = "include::" + f + "[]"
	}
	src := p.before + inc + p.after
	desc := fmt.Sprintf("failing %q at depth %d source=%q", directive, depth, src)
	return &core.Case{Desc: desc, Check: func(r *core.Run) error {
		return lib.WithFiles(files, func(dir string) error {
			out, _, err := lib.Convert(src, lib.Opts{Filename: filepath.Join(dir, "docs", "test.adoc")})
			if err == nil {
				return fmt.Errorf("no error, output %q", out)
			}
			r.Outcome("error")
			if out != "" {
				return fmt.Errorf("output %q besides the error %v", out, err)
			}
			want := directive
			if strings.HasPrefix(bad, "p") {
				want = "include::p" // the limit is reached in one or the other
			}
			if !strings.Contains(err.Error(), want) {
				return fmt.Errorf("the error does not have the directive: %v", err)
			}
			return nil
		})
	}}
}
