//go:build verifsched

package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/bytesparadise/libasciidoc"
	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	"github.com/bytesparadise/libasciidoc/pkg/parser"
	"github.com/bytesparadise/libasciidoc/pkg/types"
	log "github.com/sirupsen/logrus"

	"verif/mc/core"
	"verif/mc/lib"
)

// schedDocs: documents whose fragments go through the stages of the pipeline.
var schedDocs = []struct{ name, src string }{
	{"empty", ""},
	{"paragraph", "hello *world*\n"},
	{"attributes", ":a: 1\n\n{a} footnote:[{a}]\n\n:a: 2\n\n{a} footnote:[{a} *b*]\n"},
	{"sections", "= T\n:toc:\n\n== A\n\n<<_b>>\n\n== B\n\n<<_a>>\n"},
	{"lists", "* a\n* b footnote:[x]\n\n. c\n\n|===\n|a footnote:[y]\n|===\n"},
	{"errors", "a\n\n[subs=nope]\n----\nx\n----\n\nb footnote:[c]\n\n[subs=nope]\n----\ny\n----\n\nd\n"},
}

var errBroken = errors.New("broken")

type brokenReader struct {
	src string
	at  int
}

func (r *brokenReader) Read(p []byte) (int, error) {
	if r.at == 0 {
		return 0, errBroken
	}
	n := copy(p, r.src[:r.at])
	r.src, r.at = r.src[n:], r.at-n
	return n, nil
}

type brokenWriter struct{ after int }

func (w *brokenWriter) Write(p []byte) (int, error) {
	if len(p) > w.after {
		return 0, errBroken
	}
	w.after -= len(p)
	return len(p), nil
}

func longDoc(n int) string {
	sb := &strings.Builder{}
	for i := 0; i < n; i++ {
		fmt.Fprintf(sb, "p%d {counter:c}\n\n", i)
	}
	return sb.String()
}

// observe converts, and returns all that the caller may see (the order of the messages excepted).
func observe(src io.Reader, out io.Writer, cfg *configuration.Configuration) string {
	md, err := libasciidoc.Convert(src, out, cfg)
	return fmt.Sprintf("error: %v\nmetadata: %s\n", err, metadataString(md))
}

func c05Families(tier string) []core.Family {
	bound := 1
	if tier == "thorough" {
		bound = 2
	}
	conversions := core.Family{Name: "conversions", Gen: func(g *core.Gen) *core.Case {
		d := schedDocs[g.Choose(len(schedDocs))]
		shards := 32
		shard := g.Choose(shards)
		b := bound + 1
		if len(d.src) < 30 {
			b++
		}
		return &core.Case{
			Desc: fmt.Sprintf("document %s, part %d of %d", d.name, shard+1, shards),
			Check: func(r *core.Run) error {
				return exploreConversion(r, b, shard, shards, func() (io.Reader, io.Writer, *bytes.Buffer) {
					b := &bytes.Buffer{}
					return strings.NewReader(d.src), b, b
				})
			},
		}
	}}
	long := core.Family{Name: "long", Gen: func(g *core.Gen) *core.Case {
		n := []int{12, 40}[g.Choose(2)]
		if n == 40 && bound == 1 {
			return g.Skip()
		}
		shards := 16
		shard := g.Choose(shards)
		src := longDoc(n)
		return &core.Case{
			Desc: fmt.Sprintf("%d paragraphs, part %d of %d", n, shard+1, shards),
			Check: func(r *core.Run) error {
				return exploreConversion(r, 1, shard, shards, func() (io.Reader, io.Writer, *bytes.Buffer) {
					b := &bytes.Buffer{}
					return strings.NewReader(src), b, b
				})
			},
		}
	}}
	broken := core.Family{Name: "faults", Gen: func(g *core.Gen) *core.Case {
		onRead := g.Bool()
		src := longDoc(3) + schedDocs[2].src
		at := []int{0, 5, len(src)}[g.Choose(3)]
		return &core.Case{
			Desc: fmt.Sprintf("fault when reading: %t, after %d bytes", onRead, at),
			Check: func(r *core.Run) error {
				return exploreConversion(r, bound, 0, 1, func() (io.Reader, io.Writer, *bytes.Buffer) {
					b := &bytes.Buffer{}
					if onRead {
						return &brokenReader{src: src, at: at}, b, b
					}
					return strings.NewReader(src), &brokenWriter{after: at}, b
				})
			},
		}
	}}
	cancel := core.Family{Name: "cancellation", Gen: func(g *core.Gen) *core.Case {
		stages := 1 + g.Choose(6)
		src, n := longDoc(14), 14
		if g.Bool() {
			src, n = longDoc(2), 2
		}
		take := g.Choose(n + 2)
		if take > 4 && take < n-1 && take%4 != 0 {
			return g.Skip()
		}
		return &core.Case{
			Desc: fmt.Sprintf("%d stages, %d paragraphs, %d fragments taken", stages, n, take),
			Check: func(r *core.Run) error {
				return exploreCancellation(r, bound, stages, src, take)
			},
		}
	}}
	return []core.Family{conversions, long, broken, cancel}
}

func exploreConversion(r *core.Run, bound, shard, shards int, mk func() (io.Reader, io.Writer, *bytes.Buffer)) error {
	log.SetLevel(log.WarnLevel)
	defer log.SetLevel(log.PanicLevel)
	s := &schedules{alive: r.Alive, kinds: kindSched | kindCase, bound: bound, shard: shard, shards: shards}
	first := true
	s.body = func() string {
		in, out, b := mk()
		o := observe(in, out, lib.Opts{Wrap: true}.Config())
		return o + b.String()
	}
	s.after = func(got string) error {
		got += "\nlogs:\n" + sortedLogs()
		if first {
			first = false
			s.want = got
			r.Outcome(got)
			return nil
		}
		if got != s.want {
			return fmt.Errorf("the outcome depends on the schedule:\n%s", firstDiff(s.want, got))
		}
		return nil
	}
	lib.TakeLogs()
	err := s.explore()
	r.Schedules(s.executions, s.decisions)
	return err
}

// exploreCancellation builds the first stages of the pipeline, takes some fragments and closes the
// `done` channel: all goroutines must end.
func exploreCancellation(r *core.Run, bound, stages int, src string, take int) error {
	s := &schedules{alive: r.Alive, kinds: kindSched | kindCase, bound: bound}
	first := true
	s.body = func() string {
		cfg := lib.Opts{}.Config()
		done := make(chan interface{})
		in := strings.NewReader(src)
		c := parser.ParseDocumentFragments(parser.NewParseContext(cfg), in, done)
		if stages > 1 {
			c = parser.RefineFragments(parser.NewParseContext(cfg), in, done, c)
		}
		if stages > 2 {
			c = parser.ApplySubstitutions(parser.NewParseContext(cfg), done, c)
		}
		if stages > 3 {
			c = parser.CollectFootnotes(types.NewFootnotes(), done, c)
		}
		if stages > 4 {
			c = parser.ArrangeLists(done, c)
		}
		if stages > 5 {
			c = parser.FilterOut(done, c)
		}
		sb := &strings.Builder{}
		for i := 0; i < take; i++ {
			f, ok := <-c
			if !ok {
				sb.WriteString("end\n")
				break
			}
			fmt.Fprintf(sb, "%d-%d %d elements, error %v\n", f.Position.Start, f.Position.End, len(f.Elements), f.Error)
		}
		close(done)
		return sb.String()
	}
	s.after = func(got string) error {
		if first {
			first = false
			s.want = got
			r.Outcome(got)
			return nil
		}
		if got != s.want {
			return fmt.Errorf("the fragments depend on the schedule:\n%s", firstDiff(s.want, got))
		}
		return nil
	}
	err := s.explore()
	r.Schedules(s.executions, s.decisions)
	return err
}

func init() {
	core.Register(&core.Property{ID: "C05", Title: "Conversions end whatever the schedule", Families: c05Families,
		Bounds:      "all schedules with at most 2 deviations (3 for the two shortest documents) of 6 documents, 1 deviation for 12 paragraphs, faults and cancellations (one more deviation in the thorough tier); decision points: operations on channels and locks, order of the cases of select",
		Assumptions: []string{"code between two decision points runs without interruption (C06 looks for data races)"},
	})
}
