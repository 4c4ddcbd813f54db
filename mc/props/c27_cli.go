package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bytesparadise/libasciidoc"
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	log "github.com/sirupsen/logrus"

	"verif/mc/core"
	"verif/mc/lib"
)

// the files around the runs of the command
func cliFiles() map[string]string {
	return map[string]string{
		"work/doc.adoc":        "= T\n:toc:\n\n== S\n\n{x} {y} image:a.png[]\n\ninclude::inc.adoc[]\n\nifdef::x[x is set]\n\n'''\n",
		"work/inc.adoc":        "included {x}\n",
		"work/messages.adoc":   "<<nowhere>> footnote:e[]\n\n[subs=nope]\n----\nx\n----\n\nend\n",
		"work/manpage.adoc":    "= T\n:doctype: manpage\n\nx\n",
		"work/plain.adoc":      "a *b*\n",
		"work/text.txt":        "t _u_\n",
		"work/noext":           "n\n",
		"work/two.dots.adoc":   "d `e`\n",
		"work/page.html":       "h\n",
		"work/empty.adoc":      "",
		"work/sub/nested.adoc": "include::part.adoc[]\n",
		"work/sub/part.adoc":   "part of sub\n",
		"work/part.adoc":       "part of work\n",
		"work/with space.adoc": "s\n",
		"work/-dash.adoc":      "-d\n",
		"out/keep.txt":         "kept\n",
	}
}

// cliRun runs the command in dir/work, and returns its outputs and its exit status.
func cliRun(dir string, args []string) (stdout, stderr string, status int) {
	cmd := exec.Command(os.Getenv("VERIF_CLI"), args...)
	cmd.Dir = filepath.Join(dir, "work")
	o, e := &bytes.Buffer{}, &bytes.Buffer{}
	cmd.Stdout, cmd.Stderr = o, e
	if err := cmd.Run(); err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			core.Harness("running the command: %v", err)
		}
	}
	return o.String(), e.String(), cmd.ProcessState.ExitCode()
}

// tree gives the content of the files under dir.
func tree(dir string) map[string]string {
	r := map[string]string{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			r[rel] = string(b)
		}
		return nil
	})
	return r
}

func treeDiff(want, got map[string]string) error {
	names := []string{}
	for n := range want {
		names = append(names, n)
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		w, ok := want[n]
		g, found := got[n]
		switch {
		case !ok:
			return fmt.Errorf("unexpected file %q: %q", n, g)
		case !found:
			return fmt.Errorf("no file %q, expected: %q", n, w)
		case w != g:
			return fmt.Errorf("file %q:\n%s", n, firstDiff(w, g))
		}
	}
	return nil
}

// cliSpec is one run of the command.
type cliSpec struct {
	backend string   // "": not given
	bare    bool     // without header and footer
	css     []string // the style sheets
	attrs   []string // NAME or NAME=VALUE
	out     string   // "": not given
	level   string   // "": not given
	sources []string // relative to work, or absolute if they start with /
	long    int      // the form of the options
	last    bool     // the options after the files
}

func (s cliSpec) args(dir string) []string {
	opts, files := []string{}, []string{}
	opt := func(short, long, value string) {
		switch {
		case s.long == 0 && short != "":
			opts = append(opts, "-"+short, value)
		case s.long == 1 || short == "":
			opts = append(opts, "--"+long+"="+value)
		case s.long == 2:
			opts = append(opts, "-"+short+value)
		default:
			opts = append(opts, "--"+long, value)
		}
	}
	for _, a := range s.attrs {
		opt("a", "attribute", a)
	}
	if s.backend != "" {
		opt("b", "backend", s.backend)
	}
	for _, c := range s.css {
		opt("", "css", c)
	}
	if s.bare {
		if s.long == 0 || s.long == 2 {
			opts = append(opts, "-s")
		} else {
			opts = append(opts, "--no-header-footer")
		}
	}
	if s.out != "" {
		opt("o", "out-file", strings.ReplaceAll(s.out, "DIR", dir))
	}
	if s.level != "" {
		opt("", "log", s.level)
	}
	for _, f := range s.sources {
		files = append(files, strings.ReplaceAll(f, "DIR", dir))
	}
	if s.last {
		return append(files, opts...)
	}
	return append(opts, files...)
}

// library converts the file as the specification says with the library.
func (s cliSpec) library(path string) (string, error) {
	set := []configuration.Setting{configuration.WithFilename(path), configuration.WithHeaderFooter(!s.bare)}
	if s.backend != "" {
		set = append(set, configuration.WithBackEnd(s.backend))
	}
	if len(s.css) > 0 {
		set = append(set, configuration.WithCSS(s.css))
	}
	for _, a := range s.attrs {
		name, value := a, ""
		if i := strings.Index(a, "="); i >= 0 {
			name, value = a[:i], a[i+1:]
		}
		set = append(set, configuration.WithAttribute(name, value))
	}
	sb := &strings.Builder{}
	_, err := libasciidoc.ConvertFile(sb, configuration.NewConfiguration(set...))
	return sb.String(), err
}

// cliCase runs the command: it must write what the library gives for the same options, and nothing else.
func cliCase(s cliSpec) *core.Case {
	return &core.Case{
		Desc: fmt.Sprintf("libasciidoc %q", s.args("DIR")),
		Check: func(r *core.Run) error {
			return lib.WithFiles(cliFiles(), func(dir string) error {
				for f := range cliFiles() {
					if err := os.Chtimes(filepath.Join(dir, f), lib.FixedTime, lib.FixedTime); err != nil {
						return err
					}
				}
				want := tree(dir)
				wantStdout, wantStatus := "", 0
				for _, f := range s.sources {
					path := f
					if strings.HasPrefix(f, "DIR") {
						path = strings.ReplaceAll(f, "DIR", dir)
					} else {
						path = filepath.Join(dir, "work", f)
					}
					html, err := s.library(path)
					if err != nil {
						wantStatus = 1
						break
					}
					out := strings.TrimSuffix(path, filepath.Ext(path)) + ".html"
					if s.out == "-" {
						wantStdout += html
						continue
					} else if s.out != "" {
						out = filepath.Join(dir, "work", s.out)
						if strings.HasPrefix(s.out, "DIR") {
							out = strings.ReplaceAll(s.out, "DIR", dir)
						}
					}
					if rel, _ := filepath.Rel(dir, out); out != filepath.Clean(path) {
						want[rel] = html
					}
				}
				stdout, stderr, status := cliRun(dir, s.args(dir))
				r.Outcome(stdout)
				if wantStatus != 0 {
					if status != wantStatus {
						return fmt.Errorf("exit status %d where the conversion fails, expected %d: %s%s", status, wantStatus, stdout, stderr)
					}
					if stdout+stderr == "" {
						return fmt.Errorf("no message where the conversion fails")
					}
					// (what is written for the file which is not converted is not specified)
					return nil
				}
				if status != 0 {
					return fmt.Errorf("exit status %d: %s%s", status, stdout, stderr)
				}
				if stdout != wantStdout && s.level == "panic" {
					return fmt.Errorf("on the standard output:\n%s", firstDiff(wantStdout, stdout))
				}
				return treeDiff(want, tree(dir))
			})
		},
	}
}

var cliLevels = []string{"panic", "fatal", "error", "warn", "warning", "info", "debug", "trace"}

// cliMessagesCase: the messages up to the given level are shown, and the result is the same.
func cliMessagesCase(source, level, out string) *core.Case {
	s := cliSpec{level: level, out: out, sources: []string{source}}
	return &core.Case{
		Desc: fmt.Sprintf("messages of libasciidoc %q", s.args("DIR")),
		Check: func(r *core.Run) error {
			return lib.WithFiles(cliFiles(), func(dir string) error {
				for f := range cliFiles() {
					_ = os.Chtimes(filepath.Join(dir, f), lib.FixedTime, lib.FixedTime)
				}
				set := level
				if set == "" {
					set = "warn"
				}
				lvl, err := log.ParseLevel(set)
				if err != nil {
					core.Harness("%v", err)
				}
				if lvl > log.WarnLevel {
					lvl = log.WarnLevel // the messages for developers are not specified
				}
				lib.TakeLogs()
				log.SetLevel(lvl)
				html, err := s.library(filepath.Join(dir, "work", source))
				log.SetLevel(log.PanicLevel)
				messages := lib.TakeLogs()
				if err != nil {
					core.Harness("%v", err)
				}
				stdout, stderr, status := cliRun(dir, s.args(dir))
				if status != 0 || stderr != "" {
					return fmt.Errorf("exit status %d: %s", status, stderr)
				}
				r.Outcome(strings.Join(messages, "\n"))
				shown := 0
				for _, l := range strings.Split(stdout, "\n") {
					if strings.Contains(l, "level=error") || strings.Contains(l, "level=warn") || strings.Contains(l, "level=fatal") {
						shown++
					}
				}
				if shown != len(messages) {
					return fmt.Errorf("%d messages shown, expected %d: %q, shown: %s", shown, len(messages), messages, stdout)
				}
				if lvl == log.PanicLevel && out == "-" && stdout != html {
					return fmt.Errorf("on the standard output:\n%s", firstDiff(html, stdout))
				}
				if out != "" {
					return nil
				}
				want := strings.TrimSuffix(source, ".adoc") + ".html"
				if got := tree(filepath.Join(dir, "work"))[want]; got != html {
					return fmt.Errorf("file %q:\n%s", want, firstDiff(html, got))
				}
				return nil
			})
		},
	}
}

// cliStatusCase: runs which convert nothing.
func cliStatusCase(args []string, status int, has string, files map[string]string) *core.Case {
	return &core.Case{
		Desc: fmt.Sprintf("status of libasciidoc %q", args),
		Check: func(r *core.Run) error {
			all := cliFiles()
			for f, c := range files {
				all[f] = c
			}
			return lib.WithFiles(all, func(dir string) error {
				before := tree(dir)
				a := []string{}
				for _, s := range args {
					a = append(a, strings.ReplaceAll(s, "DIR", dir))
				}
				stdout, stderr, got := cliRun(dir, a)
				r.Outcome(stdout)
				if got != status {
					return fmt.Errorf("exit status %d, expected %d: %s%s", got, status, stdout, stderr)
				}
				if !strings.Contains(stdout+stderr, has) {
					return fmt.Errorf("no %q in what is shown: %s%s", has, stdout, stderr)
				}
				return treeDiff(before, tree(dir))
			})
		},
	}
}

// cliExistingCase: the file in place of the output is replaced, whatever its size.
func cliExistingCase(size int, out string, symlink bool) *core.Case {
	s := cliSpec{out: out, level: "panic", sources: []string{"doc.adoc"}}
	return &core.Case{
		Desc: fmt.Sprintf("libasciidoc %q over an output of %d bytes, symbolic link: %t", s.args("DIR"), size, symlink),
		Check: func(r *core.Run) error {
			return lib.WithFiles(cliFiles(), func(dir string) error {
				target := filepath.Join(dir, "work", "doc.html")
				if out != "" {
					target = filepath.Join(dir, "work", out)
				}
				file := target
				if symlink {
					file = filepath.Join(dir, "out", "elsewhere")
					if err := os.Symlink(file, target); err != nil {
						return err
					}
				}
				if err := os.WriteFile(file, bytes.Repeat([]byte("o"), size), 0o644); err != nil {
					return err
				}
				html, err := s.library(filepath.Join(dir, "work", "doc.adoc"))
				if err != nil {
					return err
				}
				stdout, stderr, status := cliRun(dir, s.args(dir))
				r.Outcome(stdout)
				if status != 0 {
					return fmt.Errorf("exit status %d: %s%s", status, stdout, stderr)
				}
				if b, err := os.ReadFile(target); err != nil || string(b) != html {
					return fmt.Errorf("%v:\n%s", err, firstDiff(html, string(b)))
				}
				return nil
			})
		},
	}
}

// cliUnsetCase: the attributes given as NAME! are not set, whatever the document says.
func cliUnsetCase(args []string, src, has, hasnt string) *core.Case {
	return &core.Case{
		Desc: fmt.Sprintf("libasciidoc %q with %q", args, src),
		Check: func(r *core.Run) error {
			return lib.WithFiles(map[string]string{"work/u.adoc": src}, func(dir string) error {
				stdout, stderr, status := cliRun(dir, append(args, "--log=panic", "-o", "-", "u.adoc"))
				r.Outcome(stdout)
				if status != 0 {
					return fmt.Errorf("exit status %d: %s%s", status, stdout, stderr)
				}
				if !strings.Contains(stdout, has) || hasnt != "" && strings.Contains(stdout, hasnt) {
					return fmt.Errorf("expected %q and not %q: %s", has, hasnt, stdout)
				}
				return nil
			})
		},
	}
}

func c27Families(tier string) []core.Family {
	thorough := tier == "thorough"
	attrs := [][]string{nil, {"x=1"}, {"x"}, {"x=a=b c", "y=2"}, {"x=1", "x=2"}, {"toc=preamble", "sectnums"}, {"x=<&"}, {"icons=font", "x=a,b"}}
	css := [][]string{nil, {"a.css"}, {"a.css", "b,c.css"}}
	backends := []string{"", "html5", "html", "xhtml5", "xhtml", "nope"}
	outs := []string{"", "-", "o.html", "DIR/out/o", "sub/o.x"}
	sources := []string{"doc.adoc", "plain.adoc", "text.txt", "noext", "two.dots.adoc", "page.html", "empty.adoc", "sub/nested.adoc", "with space.adoc", "DIR/work/doc.adoc", "./plain.adoc", "../work/plain.adoc", "missing.adoc", "sub", "manpage.adoc"}
	return []core.Family{
		{Name: "options", Gen: func(g *core.Gen) *core.Case {
			s := cliSpec{level: "panic", sources: []string{"doc.adoc"}}
			s.backend = core.PickOf(g, backends)
			s.bare = g.Bool()
			s.css = core.PickOf(g, css)
			s.attrs = core.PickOf(g, attrs)
			s.out = core.PickOf(g, outs)
			if thorough {
				s.long = g.Choose(4)
				s.last = g.Bool()
			} else {
				s.long = (len(s.attrs) + len(s.css) + len(s.out)) % 4
				s.last = len(s.backend)%2 == 1
			}
			return cliCase(s)
		}},
		{Name: "files", Gen: func(g *core.Gen) *core.Case {
			s := cliSpec{level: "panic"}
			s.out = g.Pick("", "-")
			n := 1 + g.Choose(2)
			for i := 0; i < n; i++ {
				s.sources = append(s.sources, core.PickOf(g, sources))
			}
			if thorough && n == 2 && g.Bool() {
				s.sources = append(s.sources, core.PickOf(g, sources))
			}
			s.bare = len(s.sources)%2 == 0
			return cliCase(s)
		}},
		{Name: "messages", Gen: func(g *core.Gen) *core.Case {
			source := g.Pick("messages.adoc", "manpage.adoc", "plain.adoc", "doc.adoc")
			return cliMessagesCase(source, core.PickOf(g, append([]string{""}, cliLevels...)), g.Pick("", "-"))
		}},
		{Name: "status", Gen: func(g *core.Gen) *core.Case {
			type run struct {
				args   []string
				status int
				has    string
			}
			c := core.PickOf(g, []run{
				{[]string{}, 0, "Usage:"},
				{[]string{"--help"}, 0, "Usage:"},
				{[]string{"-h"}, 0, "--out-file"},
				{[]string{"help"}, 0, "Usage:"},
				{[]string{"help", "nothing"}, 1, ""},
				{[]string{"version"}, 0, ""},
				{[]string{"--nope", "doc.adoc"}, 1, "nope"},
				{[]string{"-z", "doc.adoc"}, 1, ""},
				{[]string{"--log=nope", "doc.adoc"}, 1, "nope"},
				{[]string{"--log", "", "doc.adoc"}, 1, ""},
				{[]string{"doc.adoc", "-o"}, 1, ""},
				{[]string{"-o", "doc.adoc", "doc.adoc"}, 0, "doc.adoc"},
				{[]string{"-o", "DIR/work/doc.adoc", "doc.adoc"}, 0, "doc.adoc"},
				{[]string{"-o", "./sub/../doc.adoc", "doc.adoc"}, 0, "doc.adoc"},
				{[]string{"page.html"}, 0, "page.html"},
				{[]string{"-o", "-", "missing.adoc"}, 1, "missing.adoc"},
				{[]string{"-b", "nope", "-o", "-", "plain.adoc"}, 1, "nope"},
			})
			return cliStatusCase(c.args, c.status, c.has, nil)
		}},
		{Name: "existing", Gen: func(g *core.Gen) *core.Case {
			return cliExistingCase(core.PickOf(g, []int{0, 1, 100, 100000}), g.Pick("", "o.html", "sub/o"), g.Bool())
		}},
		{Name: "unset", Gen: func(g *core.Gen) *core.Case {
			type run struct {
				args            []string
				src, has, hasnt string
			}
			c := core.PickOf(g, []run{
				{[]string{"-a", "x!"}, "{x}\n", "{x}", ""},
				{[]string{"-a", "x!"}, "ifdef::x[is set]\nifndef::x[is not set]\n", "is not set", "is set<"},
				{[]string{"-a", "x!"}, ":x: 1\n\n{x}\n", "{x}", "1"},
				{[]string{"-a", "table-caption!"}, ".T\n|===\n|a\n|===\n", "T</caption>", "Table"},
				{[]string{"-a", "x=1", "-a", "x!"}, "{x}\n", "{x}", ""},
			})
			return cliUnsetCase(c.args, c.src, c.has, c.hasnt)
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C27", Title: "The command does what the library does", Families: c27Families,
		Bounds:      "all combinations of 6 backends, header and footer or not, 3 lists of style sheets, 8 of attributes and 5 outputs; sequences of 1 and 2 files (3 in the thorough tier) among 15; 9 log levels; 17 runs which convert nothing; 24 outputs which exist",
		Assumptions: []string{},
	})
}
