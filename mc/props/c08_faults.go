package props

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/bytesparadise/libasciidoc"
	"verif/mc/core"
	"verif/mc/lib"
)

var errFault = errors.New("injected fault")

// faultyReader fails after n bytes, with an error on its own or along with the last bytes before it.
type faultyReader struct {
	src   string
	n     int
	with  bool
	pos   int
	after int // reads after the error
	fail  bool
}

func (r *faultyReader) Read(p []byte) (int, error) {
	if r.fail {
		r.after++
		return 0, errFault
	}
	n := copy(p, r.src[r.pos:r.n])
	r.pos += n
	if r.pos == r.n && (n == 0 || r.with) {
		r.fail = true
		return n, errFault
	}
	return n, nil
}

// faultyWriter fails at the n-th write, of which it takes a part.
type faultyWriter struct {
	strings.Builder
	n     int
	part  int // 0: nothing, 1: half, 2: all but one byte
	count int
	after int
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	w.count++
	if w.count > w.n && w.n > 0 {
		w.after++
		return 0, errFault
	}
	if w.count == w.n {
		k := []int{0, len(p) / 2, len(p) - 1}[w.part]
		if k < 0 {
			k = 0
		}
		w.Builder.Write(p[:k])
		return k, errFault
	}
	return w.Builder.Write(p)
}

// settled waits for the goroutines of a conversion to end
func settled(before int) error {
	for i := 0; ; i++ {
		n := runtime.NumGoroutine()
		if n <= before {
			return nil
		}
		if i > 400 {
			buf := make([]byte, 1<<16)
			return fmt.Errorf("%d goroutines left:\n%s", n-before, buf[:runtime.Stack(buf, true)])
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond * 5)
		}
	}
}

func init() {
	core.Register(&core.Property{
		ID:          "C08",
		Title:       "Errors of readers, writers and files are reported, and output is never wrong",
		Bounds:      "all blocks after all headers: a failure at each byte of the source, at each write of the output (of which nothing, half or all but a byte is taken), in both back-ends, with and without header and footer; all kinds of missing or unreadable files",
		Assumptions: []string{"writers return an error when they take less than they are given"},
		Families: func(tier string) []core.Family {
			thorough := tier == "thorough"
			headers := framingHeaders[:2]
			if thorough {
				headers = framingHeaders
			}
			return []core.Family{
				{Name: "reader", Gen: func(g *core.Gen) *core.Case {
					src, _, _ := fill(core.PickOf(g, headers)+core.PickOf(g, corpusBlocks).src+"\n", "A")
					n, with := g.Choose(len(src)+1), g.Bool()
					return &core.Case{Desc: fmt.Sprintf("failure after %d bytes (with data: %v) source=%q", n, with, src), Check: func(r *core.Run) error {
						base := runtime.NumGoroutine()
						rd, w := &faultyReader{src: src, n: n, with: with}, &faultyWriter{}
						_, err := libasciidoc.Convert(rd, w, lib.Opts{}.Config())
						if err == nil {
							return fmt.Errorf("no error, output %q", w.String())
						}
						r.Outcome(err.Error())
						if !strings.Contains(err.Error(), errFault.Error()) {
							return fmt.Errorf("another error: %w", err)
						}
						if w.count > 0 {
							return fmt.Errorf("output %q for a source that could not be read", w.String())
						}
						return settled(base)
					}}
				}},
				{Name: "writer", Gen: func(g *core.Gen) *core.Case {
					src, _, _ := fill(core.PickOf(g, headers)+core.PickOf(g, corpusBlocks).src+"\n", "A")
					o := lib.Opts{Wrap: g.Bool(), Backend: g.Pick("html5", "xhtml5")}
					part := g.Choose(3)
					return &core.Case{Desc: fmt.Sprintf("all writes, part %d, wrap=%v backend=%s source=%q", part, o.Wrap, o.Backend, src), Check: func(r *core.Run) error {
						full := &faultyWriter{}
						if _, err := libasciidoc.Convert(strings.NewReader(src), full, o.Config()); err != nil {
							return err
						}
						r.Outcome(fmt.Sprint(full.count, " writes"))
						base := runtime.NumGoroutine()
						for n := 1; n <= full.count; n++ {
							w := &faultyWriter{n: n, part: part}
							_, err := libasciidoc.Convert(strings.NewReader(src), w, o.Config())
							if err == nil {
								return fmt.Errorf("no error when write %d of %d fails", n, full.count)
							}
							if !strings.Contains(err.Error(), errFault.Error()) {
								return fmt.Errorf("another error when write %d fails: %w", n, err)
							}
							if w.after > 0 {
								return fmt.Errorf("%d writes after the failed one", w.after)
							}
							if !strings.HasPrefix(full.String(), w.String()) {
								return fmt.Errorf("after a failure of write %d, the output %q is not a beginning of %q", n, w.String(), full.String())
							}
							if err := settled(base); err != nil {
								return err
							}
						}
						return nil
					}}
				}},
				{Name: "files", Gen: func(g *core.Gen) *core.Case {
					name := g.Pick("ok.adoc", "missing.adoc", "dir", "", "nodir/a.adoc", "ok.adoc/a.adoc", "bad.adoc", "sub/../ok.adoc", "inc-ok.adoc", "lines.adoc", "tags.adoc", "offset.adoc", "incdir.adoc", "loop.adoc", "deep.adoc")
					wrap := g.Bool()
					backend := g.Pick("html5", "xhtml5", "pdf", "")
					return &core.Case{Desc: fmt.Sprintf("file %q wrap=%v backend=%q", name, wrap, backend), Check: func(r *core.Run) error {
						return lib.WithFiles(map[string]string{"ok.adoc": "a *b*\n", "dir/x.adoc": "x\n", "sub/y.adoc": "y\n", "bad.adoc": "a\n\ninclude::none.adoc[]\n",
							"inc-ok.adoc": "include::ok.adoc[]\n\ninclude::ok.adoc[lines=1]\n\ninclude::tagged.go[tag=a]\n", "tagged.go": "// tag::a[]\nb\n// end::a[]\n", "lines.adoc": "include::ok.adoc[lines=z]\n", "tags.adoc": "include::ok.adoc[tag=none]\n",
							"offset.adoc": "include::ok.adoc[leveloffset=a]\n", "incdir.adoc": "include::dir[]\n", "loop.adoc": "include::loop.adoc[]\n", "deep.adoc": "include::inc-ok.adoc[]\n\ninclude::tags.adoc[]\n"}, func(dir string) error {
							fds := openFiles()
							base := runtime.NumGoroutine()
							w := &faultyWriter{}
							c := lib.Opts{Wrap: wrap, Filename: filepath.Join(dir, name)}.Config()
							if name == "" {
								c.Filename = ""
							}
							if backend != "" {
								c.BackEnd = backend
							}
							_, err := libasciidoc.ConvertFile(w, c)
							ok := strings.HasSuffix(name, "ok.adoc") && backend != "pdf"
							r.Outcome(fmt.Sprint(err != nil))
							if ok != (err == nil) {
								return fmt.Errorf("error: %v", err)
							}
							if !ok && w.count > 0 {
								return fmt.Errorf("output %q with the error %w", w.String(), err)
							}
							if ok && !strings.Contains(w.String(), "<p>a <strong>b</strong></p>") {
								return fmt.Errorf("got %q", w.String())
							}
							if n := openFiles(); n > fds {
								return fmt.Errorf("%d files left open", n-fds)
							}
							return settled(base)
						})
					}}
				}},
			}
		},
	})
}

// openFiles is the number of files that this process has open
func openFiles() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(l)
}

var _ io.Reader = (*faultyReader)(nil)
