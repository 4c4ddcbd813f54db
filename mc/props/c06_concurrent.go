//go:build verifsched

package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/bytesparadise/libasciidoc/pkg/configuration"
	log "github.com/sirupsen/logrus"

	"verif/mc/core"
	"verif/mc/lib"
)

// documents which are converted at the same time
var concurrentDocs = []string{
	"a *b* {x} {counter:c} footnote:[d]\n\n{counter:c}\n",
	"= T\n:toc:\n:x: 2\n:sectnums:\n\n== A\n\n<<B>> {x}\n\n== B\n\nhello:w[x]\n",
	"[source,go]\n----\na <1>\n----\n<1> b\n\n.T\nimage::a.png[]\n\n.T\n|===\n|a |*b*\n|===\n\n. a\n* b\nc:: d\n",
	"ifdef::x[]\na {x}\nendif::[]\n:x: 3\n\n{x} -- (C) \"`q`\" \n\n[subs=nope]\n----\nx\n----\n\n<<nowhere>> footnote:e[] NOTE\n",
	"= T(1)\n:doctype: manpage\n\nx\n",
	"\u00e9a {x}\n\n[source,go,linenums]\n----\nvar x int // <1>\n----\n<1> \u00f6\n\n== \u00e9 a\n\n[cols=\"a,h\"]\n|===\na|* \u00e9\n|b\n\na|. c\na|====\nd\n====\n\na|<<_a>>\na|----\ne\n----\n\n|===\n",
	"---\nx: 4\n---\n\n{x} icon:tip[] btn:[b] ((i)) +p+ pass:q[*r*] `s` #t# ^u^ ~v~\n\n____\nq\n____\n\nWARNING: w\n",
}

// alone is the outcome of the conversion without any other.
func converted(src string, cfg *configuration.Configuration) string {
	b := &bytes.Buffer{}
	return observe(strings.NewReader(src), b, cfg) + b.String()
}

// concurrentConfig is the configuration of the i-th conversion, unless it is the shared one (the first).
func concurrentConfig(i int) *configuration.Configuration {
	o := lib.Opts{Wrap: true, Attrs: copyOf(attributeSets[1+i]), Macros: macrosForSched, CSS: []string{"a.css"}}
	if i > 0 {
		o.Backend = "xhtml5"
	}
	return o.Config()
}

func exploreConcurrent(r *core.Run, srcs []string, bound, shard, shards int, shared bool) error {
	log.SetLevel(log.WarnLevel)
	defer log.SetLevel(log.PanicLevel)
	lib.TakeLogs()
	s := &schedules{alive: r.Alive, kinds: kindSched | kindCase, bound: bound, shard: shard, shards: shards}
	var gots []string
	var cfgs []*configuration.Configuration
	config := func(i int) *configuration.Configuration {
		if shared {
			i = 0
		}
		return concurrentConfig(i)
	}
	s.body = func() string {
		gots = make([]string, len(srcs))
		cfgs = make([]*configuration.Configuration, len(srcs))
		for i := range srcs {
			if i == 0 || !shared {
				cfgs[i] = config(i)
			} else {
				cfgs[i] = cfgs[0]
			}
		}
		wg := sync.WaitGroup{}
		for i := range srcs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				gots[i] = converted(srcs[i], cfgs[i])
			}(i)
		}
		wg.Wait()
		return ""
	}
	// what the conversions give alone. It is looked at after the first execution, so that nothing
	// was converted before with the race detector.
	var wants, wantCfgs []string
	wantLogs := ""
	s.after = func(string) error {
		gotLogs := sortedLogs()
		if wants == nil {
			for i := range srcs {
				cfg := config(i)
				wants = append(wants, converted(srcs[i], cfg))
				wantCfgs = append(wantCfgs, fmt.Sprintf("%+v", *config(i)))
			}
			wantLogs = sortedLogs()
		}
		for i, c := range cfgs {
			if got := fmt.Sprintf("%+v", *c); got != wantCfgs[i] {
				return fmt.Errorf("the configuration has changed: %s", firstDiff(wantCfgs[i], got))
			}
		}
		for i := range srcs {
			if gots[i] != wants[i] {
				return fmt.Errorf("the outcome of conversion %d differs from the one alone:\n%s", i, firstDiff(wants[i], gots[i]))
			}
		}
		if gotLogs != wantLogs {
			return fmt.Errorf("the messages differ:\n%s", firstDiff(wantLogs, gotLogs))
		}
		return nil
	}
	err := s.explore()
	r.Schedules(s.executions, s.decisions)
	if raceDetector {
		fmt.Printf("schedules explored: %d, %d decisions\n", s.executions, s.decisions)
	}
	for _, w := range wants {
		r.Outcome(w)
	}
	return err
}

// racePairs: the pairs of documents which are converted with the race detector.
func racePairs(tier string) core.Family {
	return core.Family{Name: "race-pairs", Gen: func(g *core.Gen) *core.Case {
		k := g.Choose(len(concurrentDocs) + len(corpusBlocks) + 1)
		bound := 0
		src := ""
		if k < len(concurrentDocs) {
			bound = 1
			src = concurrentDocs[k]
		} else if k == len(concurrentDocs)+len(corpusBlocks) {
			src = everything()
		} else {
			src, _, _ = fill(docHeaders[2]+corpusBlocks[k-len(concurrentDocs)].src+"\n", "c")
		}
		const shards = 4
		shard := 0
		if bound == 1 {
			shard = g.Choose(shards)
		}
		return &core.Case{
			Desc: fmt.Sprintf("data races, part %d of %d, twice %q", shard+1, shards, src),
			Check: func(r *core.Run) error {
				return exploreConcurrent(r, []string{src, src}, bound, shard, shards, true)
			},
		}
	}}
}

// withRaceDetector makes the cases of the family run in the binary built with the race detector.
func withRaceDetector(f core.Family, tier string) core.Family {
	return core.Family{Name: "races", Gen: func(g *core.Gen) *core.Case {
		c := f.Gen(g)
		if c == nil {
			return nil
		}
		choices := g.Vector()
		return &core.Case{Desc: c.Desc, Check: func(r *core.Run) error {
			// a data race shows up only when no lock of the runtime orders the accesses by chance:
			// several processes are tried. A report is a proof, whatever the other processes say.
			tries := 2
			if core.Confirming {
				tries = 12
			}
			start := time.Now()
			for try := 0; try < tries && time.Since(start) < time.Minute; try++ {
				if err := runRaceDetector(r, tier, f.Name+":"+choices, try == 0); err != nil {
					return err
				}
				r.Alive()
			}
			return nil
		}}
	}}
}

// runRaceDetector runs the case in a process of the binary built with the race detector.
func runRaceDetector(r *core.Run, tier, which string, count bool) error {
	cmd := exec.Command(os.Getenv("VERIF_RACE_BIN"), "-prop", "C06", "-tier", tier, "-one", which)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=5")
	out, err := cmd.CombinedOutput()
	s := string(out)
	if i := strings.Index(s, "schedules explored: "); err == nil && i >= 0 {
		var n, d int64
		fmt.Sscanf(s[i:], "schedules explored: %d, %d decisions", &n, &d)
		if count {
			r.Schedules(n, d)
		}
		return nil
	}
	if code := cmd.ProcessState.ExitCode(); err == nil || code != 1 && code != 66 {
		core.Harness("the binary with the race detector: %v: %s", err, s)
	}
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	return fmt.Errorf("%s", s)
}

func c06Families(tier string) []core.Family {
	initMacrosForSched()
	if raceDetector {
		return []core.Family{racePairs(tier)}
	}
	n := len(concurrentDocs)
	return []core.Family{
		{Name: "pairs", Gen: func(g *core.Gen) *core.Case {
			i := g.Choose(n)
			j := i + g.Choose(n-i)
			shared := g.Bool()
			shards := 2
			if tier == "thorough" {
				shards = 64
			}
			shard := g.Choose(shards)
			return &core.Case{
				Desc: fmt.Sprintf("shared configuration: %t, part %d of %d, documents %q and %q", shared, shard+1, shards, concurrentDocs[i], concurrentDocs[j]),
				Check: func(r *core.Run) error {
					bound := 1
					if tier == "thorough" {
						bound = 2
					}
					return exploreConcurrent(r, []string{concurrentDocs[i], concurrentDocs[j]}, bound, shard, shards, shared)
				},
			}
		}},
		withRaceDetector(racePairs(tier), tier),
	}
}

func init() {
	core.Register(&core.Property{ID: "C06", Title: "Conversions at the same time do not affect each other", Families: c06Families,
		Bounds:      "all pairs of 7 documents, shared configuration or different ones (attributes, backend), all schedules with at most 1 deviation (2 in the thorough tier); with the race detector: each document with itself at 1 deviation, each block of the corpus and all of them in one document with itself at none",
		Assumptions: []string{"synchronization through channels, sync.Mutex and sync.RWMutex gives the decision points"},
	})
}
