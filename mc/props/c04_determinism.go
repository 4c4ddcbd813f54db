//go:build verifsched

package props

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	log "github.com/sirupsen/logrus"

	"verif/mc/core"
	"verif/mc/lib"
)

// documents in which several entries of the same table are in use
var manyEntries = []string{
	"= T\n:sectnums:\n:toc:\n\n== A\n\n=== A\n\n== B\n\n<<A>> <<B>> <<_a>> <<_b>>\n\n[[B]]\n.B\n====\nx\n====\n",
	"[#x,reftext=Same]\n== A\n\n[#y,reftext=Same]\n== B\n\n[[Same]]\n.Same\n----\nc\n----\n\n<<Same>> <<x>> <<y>>\n",
	":a: 1\n:b: {a}2\n:c: {b}3\n:!a:\n\n{a} {b} {c} {d}\n\n:a: {c}\n\n{a}\n",
	"{counter:a} {counter:b} {counter2:c} {counter:a} {counter:b:x} {counter:c}\n",
	"a footnote:[b] footnote:x[c] footnote:[d] footnote:x[] footnote:y[]\n\n== S footnote:[e]\n\n|===\n|a footnote:[f]\n|===\n",
	"----\na <1> <2>\nb <3>\n----\n<1> x\n<2> y\n<3> z\n",
	"a (C) (R) (TM) -- ... -> <- => <= it's {lt}{gt}{amp}{nbsp}{zwsp}{apos}{quot}{lsquo}{rsquo}{ldquo}{rdquo}{deg}{plus}{brvbar}{vbar}{startsb}{endsb}{caret}{asterisk}{tilde}{backslash}{backtick}{cpp}\n",
	"= T\nJohn Q. Public <a@b.c>; Jane Doe; Jim\nv1.2,2020-01-01: r\n:keywords: a, b\n:description: d\n\n{author} {author_2} {email} {firstname} {lastname_3} {revnumber} {revdate} {revremark}\n",
	"---\na: 1\nb: 2\nc: 3\ntitle: x\n---\n\n{a} {b} {c}\n",
	"ifdef::a,b[x]\nifndef::a+b[y]\nifeval::[\"{z}\" == \"1\"]\nz\nendif::[]\n",
	"hello:x[b,c=d,e=f,g=h] hello:y[e=f,c=d]\n\nhello::z[one,two,three=3]\n",
	"include::{dir}/inc.adoc[tags=a;!b]\n\ninclude::{dir}/inc.adoc[tags=*;!c]\n\ninclude::{dir}/inc.adoc[tags=**;!a;b,leveloffset=+1]\n\ninclude::{dir}/inc.adoc[lines=3;1..2;7..-1]\n",
	".T\nimage::a.png[]\n\n.T\n|===\n|a\n|===\n\n.T\n====\na\n====\n\n.T\n----\na\n----\n\nNOTE: a\n\nTIP: b\n",
	"= T\n:doctype: manpage\n\nx\n",
	"[subs=\"nope\"]\n--\na\n--\n\n[subs=\"nope,no\"]\n----\nb\n----\n",
	"icon:tip[] icon:warning[] icon:nope[size=2x,rotate=90,link=l,role=r,title=t]\n",
}

const manyInc = "// tag::a[]\nx1\n// tag::b[]\n\nx2\n// end::b[]\n\nx3\n// end::a[]\n\n// tag::c[]\nx4\n// tag::d[]\nx5\n// end::c[]\n// end::d[]\n"

var manyAttrs = map[string]interface{}{
	"z": "1", "y": "{z}", "x": "", "w": "a b", "icons": "font", "source-highlighter": "", "experimental": "", "table-caption": "Tbl", "sectanchors": "", "idprefix": "p-", "toc": "",
}

func manyOpts(dir string, k int) lib.Opts {
	o := lib.Opts{Wrap: true, Attrs: map[string]interface{}{"dir": dir}}
	if k == 1 {
		o.Backend = "xhtml5"
		for k, v := range manyAttrs {
			o.Attrs[k] = v
		}
	}
	o.CSS = []string{"a.css", "b.css"}
	o.Macros = macrosForSched
	return o
}

var macrosForSched = map[string]configuration.MacroTemplate{}

// determinismDocs are all the documents of the check.
func determinismDocs() []string {
	docs := append([]string{}, manyEntries...)
	for _, b := range corpusBlocks {
		s, _, _ := fill(docHeaders[len(docHeaders)-1]+b.src+"\n", "d")
		docs = append(docs, s)
	}
	for _, a := range attributed {
		for i := range a.attrs {
			for j := range a.attrs {
				if i == j && i > 0 {
					continue
				}
				l := a.attrs[i]
				if i != j {
					l += "," + a.attrs[j]
				}
				docs = append(docs, strings.ReplaceAll(a.src, "§", l))
			}
		}
	}
	return docs
}

// mapOrders runs the conversion for all places where the iterations over maps may start (with a bounded
// number of deviations), for several values of all that the code could take from its environment.
func mapOrders(src string, k, bound, shard, shards int, salts []uint64) *core.Case {
	return &core.Case{
		Desc: fmt.Sprintf("config=%d part=%d/%d source=%q", k, shard+1, shards, src),
		Check: func(r *core.Run) error {
			return lib.WithFiles(map[string]string{"inc.adoc": manyInc}, func(dir string) error {
				log.SetLevel(log.WarnLevel)
				defer log.SetLevel(log.PanicLevel)
				want := ""
				for _, salt := range salts {
					s := &schedules{alive: r.Alive, kinds: kindMap, bound: bound, salt: salt, shard: shard, shards: shards}
					if salt > 0 {
						s.bound = 0
					}
					// the table of attributes of the configuration is iterated too
					cfg := manyOpts(dir, k).Config()
					s.body = func() string {
						b := &bytes.Buffer{}
						return observe(strings.NewReader(src), b, cfg) + b.String()
					}
					s.after = func(got string) error {
						got += "\nlogs:\n" + sortedLogs()
						if want == "" {
							want = got
							r.Outcome(got)
						}
						if got != want {
							return fmt.Errorf("the outcome differs (variant %d):\n%s", salt, firstDiff(want, got))
						}
						return nil
					}
					lib.TakeLogs()
					err := s.explore()
					r.Schedules(s.executions, s.decisions)
					if err != nil {
						return err
					}
				}
				return nil
			})
		},
	}
}

// environments in which a new process converts all the documents
var environments = [][]string{
	{"VERIF_MAPSEED=1"},
	{"VERIF_MAPSEED=2", "TZ=Asia/Tokyo"},
	{"VERIF_MAPSEED=3", "TZ=America/New_York", "LANG=fr_FR.UTF-8", "LC_ALL=fr_FR.UTF-8"},
	{"VERIF_MAPSEED=4", "HOME=/nonexistent", "USER=nobody", "TERM=dumb", "NO_COLOR=1"},
	{"VERIF_MAPSEED=5", "GOMAXPROCS=8", "VERIF_PARALLEL=1"},
	{"VERIF_MAPSEED=6", "SOURCE_DATE_EPOCH=0", "GOGC=1"},
	{"VERIF_MAPSEED=7", "DEBUG=1", "LOG_LEVEL=debug"},
	{"VERIF_MAPSEED=8", "PWD=/"},
}

func digestAll(dir string) string {
	sb := &strings.Builder{}
	log.SetLevel(log.WarnLevel)
	for i, src := range determinismDocs() {
		for k := 0; k < 2; k++ {
			b := &bytes.Buffer{}
			o := observe(strings.NewReader(src), b, manyOpts(dir, k).Config()) + b.String() + sortedLogs()
			h := fnv.New64a()
			h.Write([]byte(o))
			fmt.Fprintf(sb, "%d/%d %x\n", i, k, h.Sum64())
		}
	}
	return sb.String()
}

func init() {
	if dir := os.Getenv("VERIF_DIGEST"); dir != "" {
		initMacrosForSched()
		fmt.Print(digestAll(dir))
		os.Exit(0)
	}
}

func initMacrosForSched() {
	macrosForSched["hello"] = helloMacro{}
}

type helloMacro struct{}

func environmentCase(i int) *core.Case {
	env := environments[i]
	return &core.Case{
		Desc: "environment " + strings.Join(env, " "),
		Check: func(r *core.Run) error {
			return lib.WithFiles(map[string]string{"inc.adoc": manyInc}, func(dir string) error {
				self, err := os.Executable()
				if err != nil {
					return err
				}
				run := func(env []string, wd string) (string, error) {
					cmd := exec.Command(self)
					cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "TMPDIR=" + os.TempDir(), "VERIF_DIGEST=" + dir}, env...)
					cmd.Dir = wd
					out, err := cmd.Output()
					r.Alive()
					return string(out), err
				}
				want, err := run([]string{"VERIF_MAPSEED=9"}, dir)
				if err != nil {
					core.Harness("the reference run fails: %v", err)
				}
				wd := filepath.Join(dir, "elsewhere")
				if err := os.Mkdir(wd, 0o700); err != nil {
					return err
				}
				got, err := run(env, wd)
				if err != nil {
					return fmt.Errorf("the conversions fail: %w", err)
				}
				n := int64(strings.Count(got, "\n"))
				r.Schedules(n, n)
				if got == want {
					return nil
				}
				docs := determinismDocs()
				w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
				for i := range w {
					if i >= len(g) || w[i] != g[i] {
						return fmt.Errorf("the outcome differs for document %q", docs[i/2])
					}
				}
				return fmt.Errorf("more outcomes")
			})
		},
	}
}

func c04Families(tier string) []core.Family {
	initMacrosForSched()
	docs := determinismDocs()
	nMany := len(manyEntries) + len(corpusBlocks)
	bound := 1
	if tier == "thorough" {
		bound = 2
	}
	return []core.Family{
		{Name: "tables", Gen: func(g *core.Gen) *core.Case {
			i := g.Choose(nMany)
			k := g.Choose(2)
			if bound == 1 {
				return mapOrders(docs[i], k, 1, 0, 1, []uint64{0, 1, 2, 3, 4, 5, 6, 7})
			}
			const shards = 16
			return mapOrders(docs[i], k, bound, g.Choose(shards), shards, []uint64{0, 1, 2, 3, 4, 5, 6, 7})
		}},
		{Name: "attributes", Gen: func(g *core.Gen) *core.Case {
			src := docs[nMany+g.Choose(len(docs)-nMany)]
			return mapOrders(src, 0, 1, 0, 1, []uint64{0})
		}},
		{Name: "environments", Gen: func(g *core.Gen) *core.Case {
			return environmentCase(g.Choose(len(environments)))
		}},
	}
}

func init() {
	core.Register(&core.Property{ID: "C04", Title: "The outcome only depends on the source and the configuration", Families: c04Families,
		Bounds:      "documents: each block of the corpus under a full header, documents which fill each table of the library (2 configurations each), each pair of attributes of each macro and block; decisions: start of each iteration over a map (8 alternatives), single deviations (pairs in the thorough tier); 8 values of clock, random numbers and seeds; 8 environments of a new process",
		Assumptions: []string{"map iteration orders are rotations, as in Go's implementation"},
	})
}

// helloMacro renders the arguments of the macro.
func (helloMacro) Execute(w io.Writer, data interface{}) error {
	_, err := fmt.Fprintf(w, "[hello %v]", data)
	return err
}
