package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bytesparadise/libasciidoc"
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	log "github.com/sirupsen/logrus"

	"verif/mc/core"
	"verif/mc/lib"
)

// what a program does with the library: conversions (or attempts)
type historyOp struct {
	name string
	src  string
	// conf builds the configuration
	conf func() *configuration.Configuration
	out  func(w io.Writer) io.Writer // nil: w
	file string                      // ConvertFile on that file, which has the source if there is one
}

type failingWriter struct{}

func (failingWriter) Write([]byte) (int, error) { return 0, fmt.Errorf("full") }

type echoMacro string

func (m echoMacro) Execute(w io.Writer, data interface{}) error {
	_, err := fmt.Fprintf(w, "[%s %v]", string(m), data)
	return err
}

func plainConf(s ...configuration.Setting) func() *configuration.Configuration {
	return func() *configuration.Configuration {
		return configuration.NewConfiguration(append([]configuration.Setting{configuration.WithFilename("test.adoc"), configuration.WithLastUpdated(lib.FixedTime)}, s...)...)
	}
}

// the number of operations but the last ones, which convert large documents
var smallHistoryOps int

// historyOps is computed once; the index of an operation identifies it in the other processes.
var historyOps = func() []historyOp {
	r := []historyOp{}
	full := plainConf(configuration.WithHeaderFooter(true))
	// sources which depend on all the kinds of states a document has
	probes := []struct{ name, src string }{
		{"counters", "{counter:c} {counter:d:x} {counter2:e}{counter:e}\n"},
		{"attributes", ":v: set\n:icons: font\n:table-caption!:\n\n{v} {w}\n\nNOTE: a\n\n.T\n|===\n|a\n|===\n"},
		{"references", "{v} {w} {author} {revnumber} {c} {icons} {title} {a} {u} {b}\n"},
		{"captions", ".T\n|===\n|a\n|===\n\n.T\nimage::a.png[]\n\n.T\n====\na\n====\n"},
		{"footnotes", "a footnote:x[b] c footnote:[d] e footnote:x[]\n"},
		{"undefined footnote", "a footnote:x[]\n"},
		{"sections", "= T\n:sectnums:\n:toc:\n\n== A\n\n== A\n\n<<A>> <<_a_2>>\n\n=== B\n"},
		{"ids", "== A\n\n== A\n\n<<A>> <<_a>> <<x>>\n"},
		{"prefix", ":idprefix: p-\n:idseparator: -\n\n== A b\n\n== A b\n"},
		{"header", "= T: s\nAn Author <a@b.c>\nv1.0, 2020-01-01: r\n:description: d\n:keywords: k\n\na\n"},
		{"front matter", "---\nw: front\n---\n\n{w}\n"},
		{"manpage", "= T(1)\n:doctype: manpage\n\n== Name\n\na - b\n\n== Synopsis\n\nc\n"},
		{"broken manpage", "= T\n:doctype: manpage\n\nx\n"},
		{"experimental", ":experimental:\n\nbtn:[a] menu:b[c] kbd:[d]\n"},
		{"not experimental", "btn:[a] menu:b[c] kbd:[d]\n"},
		{"conditions", "ifdef::v[a]\nifndef::v[b]\nifdef::w[]\nc\nendif::[]\nifeval::[\"{u}\" == \"1\"]\nd\nendif::[]\n"},
		{"open conditions", "ifdef::v[]\nx\nifdef::w[]\ny\n"},
		{"highlighter", ":source-highlighter: chroma\n\n[source,go]\n----\nvar x int // <1>\n----\n<1> c\n"},
		{"source", "[source,go]\n----\nvar x int // <1>\n----\n<1> c\n\n. a\n. b\n"},
		{"subs", "[subs=\"quotes,attributes\"]\n----\n*a* {v} < b\n----\n\n[subs=none]\n*a*\n"},
		{"unknown subs", "[subs=nope]\n----\na\n----\n\n[subs=nope]\na *b*\n"},
		{"verbatim", "----\n*a* {v} < b\n----\n\n*a* {v}\n\n....\n*c*\n"},
		{"user macro", "m:a[b]\n\nm::c[d]\n"},
		{"include", "include::inc.adoc[]\n\n{fromfile}\n\ninclude::missing.adoc[]\n"},
		{"include of a part", ":leveloffset: 1\n\ninclude::inc.adoc[tags=t,leveloffset=+1]\n\n== B\n"},
		{"list", "[start=4]\n. a\n. b\n\n* [x] c\n\n[square]\n* d\n"},
		{"passthroughs", "+a+ pass:q[*b*] +++<i>+++ `c` \"`d`\" (C) x--y\n"},
		{"hardbreaks", ":hardbreaks:\n\na\nb\n"},
		{"plain lines", "a\nb\n\n[%hardbreaks]\nc\nd\n"},
		{"unbalanced", "====\na\n\n****\nb *c _d\n"},
		{"empty", ""},
	}
	for _, p := range probes {
		r = append(r, historyOp{name: p.name, src: p.src, conf: full})
	}
	src := "= T\n:toc:\n:w: {v}\n\n== A\n\n{v} {w} m:a[b] m::c[d]\n\n.T\n[#x]\nimage::a.png[]\n\nNOTE: <<x>> icon:tip[] {counter:c}\n\n[source,go]\n----\nvar x int\n----\n"
	confs := []struct {
		name string
		conf func() *configuration.Configuration
	}{
		{"default", plainConf()},
		{"xhtml5", plainConf(configuration.WithBackEnd("xhtml5"), configuration.WithHeaderFooter(true))},
		{"attributes", plainConf(configuration.WithAttributes(map[string]interface{}{"v": "conf", "icons": "font", "source-highlighter": "chroma", "sectnums": true, "experimental": true}))},
		{"other attributes", plainConf(configuration.WithAttributes(map[string]interface{}{"v": "other", "toc!": "", "figure-caption": "Fig", "idprefix": "q-", "doctype": "manpage"}))},
		{"macro", plainConf(configuration.WithMacroTemplate("m", echoMacro("one")))},
		{"other macro", plainConf(configuration.WithMacroTemplate("m", echoMacro("two")))},
		{"css", plainConf(configuration.WithCSS([]string{"a.css"}), configuration.WithHeaderFooter(true))},
		{"other filename", func() *configuration.Configuration {
			return configuration.NewConfiguration(configuration.WithFilename("sub/other.adoc"), configuration.WithLastUpdated(lib.FixedTime.AddDate(1, 0, 0)), configuration.WithHeaderFooter(true))
		}},
	}
	for _, c := range confs {
		r = append(r, historyOp{name: "with " + c.name, src: src, conf: c.conf})
	}
	r = append(r,
		historyOp{name: "failing writer", src: src, conf: full, out: func(io.Writer) io.Writer { return failingWriter{} }},
		historyOp{name: "missing file", file: "missing.adoc", conf: plainConf()},
		historyOp{name: "file", file: "doc.adoc", src: src, conf: full},
		historyOp{name: "file with attributes", file: "doc.adoc", src: src, conf: confs[2].conf},
		historyOp{name: "invalid backend", src: src, conf: plainConf(configuration.WithBackEnd("nope"))},
	)
	smallHistoryOps = len(r)
	all := everything()
	for i, attrs := range attributeSets {
		for _, backend := range []string{"html5", "xhtml5"} {
			r = append(r, historyOp{name: fmt.Sprintf("everything, attributes %d, %s", i, backend), src: all,
				conf: plainConf(configuration.WithBackEnd(backend), configuration.WithAttributes(copyOf(attrs)), configuration.WithHeaderFooter(true))})
		}
	}
	return r
}()

func copyOf(m map[string]interface{}) map[string]interface{} {
	r := map[string]interface{}{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

const historyInc = ":fromfile: yes\n\n// tag::t[]\n== I\n\n{counter:c} footnote:x[i]\n// end::t[]\n"

// do performs the operation in the directory, and returns all that the caller may observe.
func (o historyOp) do(dir string, cfg *configuration.Configuration) string {
	b := &bytes.Buffer{}
	w := io.Writer(b)
	if o.out != nil {
		w = o.out(b)
	}
	c := *cfg
	c.Filename = filepath.Join(dir, c.Filename)
	if o.file != "" {
		c.Filename = filepath.Join(dir, o.file)
	}
	before := configString(&c)
	lib.TakeLogs()
	s := ""
	if o.file != "" {
		md, err := libasciidoc.ConvertFile(w, &c)
		s = fmt.Sprintf("error: %v\nmetadata: %s\n", err, metadataString(md))
	} else {
		md, err := libasciidoc.Convert(strings.NewReader(o.src), w, &c)
		s = fmt.Sprintf("error: %v\nmetadata: %s\n", err, metadataString(md))
	}
	s += b.String()
	s += "\nlogs:\n" + sortedLogs()
	if after := configString(&c); after != before {
		s += "\nthe configuration has changed:\n- " + before + "\n+ " + after
	}
	return strings.ReplaceAll(s, dir, "DIR")
}

func configString(c *configuration.Configuration) string { return fmt.Sprintf("%#v", *c) }

func historyFiles() map[string]string {
	src := ""
	for _, o := range historyOps {
		if o.file != "" && o.src != "" {
			src = o.src
		}
	}
	return map[string]string{"inc.adoc": historyInc, "sub/inc.adoc": "sub {v}\n", "doc.adoc": src}
}

// freshOutcomes are the outcomes of the operations, each in a process which does nothing else.
var freshOutcomes map[int]string

func fresh(i int) string {
	if freshOutcomes == nil {
		freshOutcomes = map[int]string{}
	}
	if s, ok := freshOutcomes[i]; ok {
		return s
	}
	s := inNewProcess([]int{i}, false)[0]
	freshOutcomes[i] = s
	return s
}

// inNewProcess returns the outcomes of the operations, performed one after the other in a new process.
func inNewProcess(ops []int, reuse bool) []string {
	self, err := os.Executable()
	if err != nil {
		core.Harness("%v", err)
	}
	arg, _ := json.Marshal(historyArg{ops, reuse})
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "VERIF_HISTORY="+string(arg))
	out, err := cmd.Output()
	r := []string{}
	if err == nil {
		err = json.Unmarshal(out, &r)
	}
	if err != nil || len(r) != len(ops) {
		core.Harness("operations %v in a new process: %v\n%s", ops, err, out)
	}
	return r
}

type historyArg struct {
	Ops   []int
	Reuse bool
}

// perform performs the operations in this process, and returns their outcomes. The numbers from
// len(historyOps) on are conversions of the blocks of the corpus, the outcome of which is not looked at.
func perform(ops []int, reuse bool) []string {
	log.SetLevel(log.WarnLevel)
	defer log.SetLevel(log.PanicLevel)
	r := []string{}
	err := lib.WithFiles(historyFiles(), func(dir string) error {
		setTimes(dir)
		var shared *configuration.Configuration
		if reuse {
			shared = historyOps[ops[len(ops)-1]].conf()
		}
		for _, i := range ops {
			if i >= len(historyOps) {
				src, _, _ := fill(docHeaders[2]+corpusBlocks[i-len(historyOps)].src+"\n", "h")
				if _, _, err := lib.Convert(src, lib.Opts{Wrap: true}); err != nil {
					return err
				}
				r = append(r, "")
				continue
			}
			cfg := shared
			if !reuse {
				cfg = historyOps[i].conf()
			}
			r = append(r, historyOps[i].do(dir, cfg))
		}
		return nil
	})
	if err != nil {
		core.Harness("operations %v: %v", ops, err)
	}
	return r
}

func init() {
	if s := os.Getenv("VERIF_HISTORY"); s != "" {
		a := historyArg{}
		if err := json.Unmarshal([]byte(s), &a); err != nil {
			os.Exit(1)
		}
		b, err := json.Marshal(perform(a.Ops, a.Reuse))
		lib.RemoveScratch()
		if err != nil {
			os.Exit(1)
		}
		os.Stdout.Write(b)
		os.Exit(0)
	}
	core.Register(&core.Property{ID: "C07", Title: "A conversion depends neither on the previous ones nor on reused options", Families: c07Families,
		Bounds:      "sequences of 1 and 2 operations among 52 (8 of them on a document with all the blocks, with 4 sets of attributes and 2 backends) with the configuration of the last one or their own, 3 among 20 of the others (44 in the thorough tier), each block of the corpus before each operation, all operations one after the other in 104 orders; 7! orders of settings; 32 pairs of configurations made from the same values",
		Assumptions: []string{},
	})
}

func setTimes(dir string) {
	t := lib.FixedTime.AddDate(2, 0, 0)
	_ = os.Chtimes(filepath.Join(dir, "doc.adoc"), t, t)
}

// polluted is set when the outcome of a conversion was wrong because of the cases before in this process:
// from then on, the cases are run in processes of their own.
var polluted bool

// historyCase performs the operations: the last one must have the same outcome as alone.
// With reuse, they all get the same configuration: the one of the last operation.
func historyCase(ops []int, reuse bool) *core.Case {
	names := []string{}
	for _, i := range ops {
		if i >= len(historyOps) {
			src, _, _ := fill(docHeaders[2]+corpusBlocks[i-len(historyOps)].src+"\n", "h")
			names = append(names, fmt.Sprintf("%q", src))
		} else {
			names = append(names, historyOps[i].name)
		}
	}
	return &core.Case{
		Desc: fmt.Sprintf("same configuration: %t, conversions: %s", reuse, strings.Join(names, ", then ")),
		Check: func(r *core.Run) error {
			last := ops[len(ops)-1]
			want := fresh(last)
			r.Alive()
			check := func(got string) error {
				r.Outcome(got)
				if i := strings.Index(got, "\nthe configuration has changed"); i >= 0 {
					return fmt.Errorf("%s", got[i+1:])
				}
				if got != want {
					return fmt.Errorf("the last conversion differs from the same one in a new process:\n%s", firstDiff(want, got))
				}
				return nil
			}
			if !polluted {
				err := check(perform(ops, reuse)[len(ops)-1])
				if err == nil {
					return nil
				}
				polluted = true
			}
			// with this history only
			return check(inNewProcess(ops, reuse)[len(ops)-1])
		},
	}
}

// longHistoryCase performs all the operations in a new process: each must have the same outcome as alone.
func longHistoryCase(first, step int) *core.Case {
	n := len(historyOps)
	ops := []int{}
	for i := 0; i < n; i++ {
		ops = append(ops, (first+i*step+n)%n)
	}
	return &core.Case{
		Desc: fmt.Sprintf("all conversions, by steps of %d from %s", step, historyOps[first].name),
		Check: func(r *core.Run) error {
			gots := inNewProcess(ops, false)
			for i, o := range ops {
				r.Alive()
				if want := fresh(o); gots[i] != want {
					return fmt.Errorf("conversion %d, %s, differs from the same one in a new process:\n%s", i, historyOps[o].name, firstDiff(want, gots[i]))
				}
			}
			return nil
		},
	}
}

// sortedLogs takes the messages logged so far.
func sortedLogs() string {
	l := lib.TakeLogs()
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func c07Families(tier string) []core.Family {
	n := len(historyOps)
	fams := []core.Family{
		{Name: "alone", Gen: func(g *core.Gen) *core.Case {
			return historyCase([]int{g.Choose(n)}, false)
		}},
		{Name: "pairs", Gen: func(g *core.Gen) *core.Case {
			a, b := g.Choose(n), g.Choose(n)
			return historyCase([]int{a, b}, g.Bool())
		}},
		{Name: "triples", Gen: func(g *core.Gen) *core.Case {
			n := smallHistoryOps
			m := n
			if tier != "thorough" {
				m = 20
			}
			a, b, c := g.Choose(m), g.Choose(m), g.Choose(m)
			if m != n {
				// one operation in two, then all kinds of states
				a, b, c = a*n/m, b*n/m, c*n/m
			}
			return historyCase([]int{a, b, c}, false)
		}},
		{Name: "blocks", Gen: func(g *core.Gen) *core.Case {
			b := g.Choose(len(corpusBlocks))
			return historyCase([]int{len(historyOps) + b, g.Choose(smallHistoryOps)}, false)
		}},
		{Name: "long", Gen: func(g *core.Gen) *core.Case {
			step := 1
			if g.Bool() {
				step = n - 1
			}
			return longHistoryCase(g.Choose(n), step)
		}},
	}
	fams = append(fams, core.Family{Name: "settings", Gen: func(g *core.Gen) *core.Case {
		order := []int{}
		left := []int{0, 1, 2, 3, 4, 5, 6}
		for len(left) > 1 {
			i := g.Choose(len(left))
			order = append(order, left[i])
			left = append(append([]int{}, left[:i]...), left[i+1:]...)
		}
		order = append(order, left...)
		return settingsCase(order)
	}}, core.Family{Name: "reused-settings", Gen: func(g *core.Gen) *core.Case {
		return reusedSettingsCase(g.Choose(4), g.Choose(4), g.Bool())
	}})
	return fams
}

const settingsSrc = "= T\n\nifdef::basebackend-html[{v} {w} {backend}]\n\n.F\nimage::a.png[]\n\nm:x[]\n"

// settingsCase: the order of the settings of a configuration does not matter.
func settingsCase(order []int) *core.Case {
	return &core.Case{
		Desc: fmt.Sprintf("settings in the order %v", order),
		Check: func(r *core.Run) error {
			run := func(order []int) (string, error) {
				attrs := map[string]interface{}{"v": "1", "icons": "font"}
				settings := []configuration.Setting{
					configuration.WithFilename("test.adoc"),
					configuration.WithLastUpdated(lib.FixedTime),
					configuration.WithBackEnd("xhtml5"),
					configuration.WithAttributes(attrs),
					configuration.WithAttribute("w", "2"),
					configuration.WithFigureCaption("Fig"),
					configuration.WithMacroTemplate("m", echoMacro("m")),
				}
				s := []configuration.Setting{configuration.WithHeaderFooter(true)}
				for _, i := range order {
					s = append(s, settings[i])
				}
				b := &bytes.Buffer{}
				_, err := libasciidoc.Convert(strings.NewReader(settingsSrc), b, configuration.NewConfiguration(s...))
				if err != nil {
					return "", err
				}
				if len(attrs) != 2 || attrs["v"] != "1" || attrs["icons"] != "font" {
					return "", fmt.Errorf("the attributes of the caller have changed: %v", attrs)
				}
				return b.String(), nil
			}
			want, err := run([]int{3, 4, 2, 0, 1, 5, 6})
			if err != nil {
				return err
			}
			for _, s := range []string{"<p>1 2 xhtml5</p>", "Fig 1. F", "[m "} {
				if !strings.Contains(want, s) {
					return fmt.Errorf("no %q in the reference output:\n%s", s, want)
				}
			}
			got, err := run(order)
			if err != nil {
				return err
			}
			r.Outcome(got)
			if got != want {
				return fmt.Errorf("the output depends on the order:\n%s", firstDiff(want, got))
			}
			return nil
		},
	}
}

// reusedSettingsCase: two configurations made with the same values are independent.
func reusedSettingsCase(first, second int, convert bool) *core.Case {
	backends := []string{"", "html5", "xhtml5", "html"}
	return &core.Case{
		Desc: fmt.Sprintf("configurations made from the same attributes, for %q then %q, conversion in between: %t", backends[first], backends[second], convert),
		Check: func(r *core.Run) error {
			attrs := map[string]interface{}{"v": "1", "w": "2"}
			mk := func(backend string, attrs map[string]interface{}) *configuration.Configuration {
				s := []configuration.Setting{configuration.WithFilename("test.adoc"), configuration.WithLastUpdated(lib.FixedTime), configuration.WithAttributes(attrs), configuration.WithHeaderFooter(true), configuration.WithMacroTemplate("m", echoMacro("m"))}
				if backend != "" {
					s = append(s, configuration.WithBackEnd(backend))
				}
				return configuration.NewConfiguration(s...)
			}
			run := func(c *configuration.Configuration) string {
				b := &bytes.Buffer{}
				_, err := libasciidoc.Convert(strings.NewReader(":v: doc\n:z: doc\n\n"+settingsSrc), b, c)
				return fmt.Sprintf("%v\n%s", err, b)
			}
			want := run(mk(backends[second], map[string]interface{}{"v": "1", "w": "2"}))
			c1 := mk(backends[first], attrs)
			if convert {
				run(c1)
			}
			c2 := mk(backends[second], attrs)
			c1.Attributes["v"] = "changed"
			got := run(c2)
			r.Outcome(got)
			if got != want {
				return fmt.Errorf("the second configuration depends on the first:\n%s", firstDiff(want, got))
			}
			return nil
		},
	}
}
