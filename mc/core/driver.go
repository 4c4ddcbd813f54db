package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type recorder struct {
	family      string
	explicit    bool
	transitions int64
	nodes       int64
	schedules   int64 // executions within the cases
	decisions   int64
	states      map[uint64]struct{}
	outcomes    map[uint64]struct{}
}

func newRecorder() *recorder {
	return &recorder{states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (r *recorder) state(s string) { r.states[hash64(s)] = struct{}{} }

func (r *recorder) outcome(s string) {
	if len(r.outcomes) < 2_000_000 {
		r.outcomes[hash64(s)] = struct{}{}
	}
}

// Failure is one violation (or known finding) found by a worker.
type Failure struct {
	Family  string
	Choices []int
	Desc    string
	Message string
	Kind    string // "property", "crash", "hang"
}

type shardResult struct {
	Done        bool
	Executed    int64
	Transitions int64
	Nodes       int64
	Schedules   int64
	Decisions   int64
	States      []uint64
	Outcomes    []uint64
	Failures    []Failure
	Samples     map[string]string
	PerFamily   map[string]int64
	Deadline    bool
}

// KnownFinding is an entry of known_findings.json.
type KnownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"`         // "known" or "fixed"
	Desc     string `json:"case,omitempty"` // the exact failing case, as printed by the check
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(verif, prop string) []KnownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	all := []KnownFinding{}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintf(os.Stderr, "invalid known_findings.json: %v\n", err)
		os.Exit(2)
	}
	r := []KnownFinding{}
	for _, k := range all {
		if k.Property == prop && k.Status == "known" {
			r = append(r, k)
		}
	}
	return r
}

type lastCase struct {
	Family  int    `json:"f"`
	Choices []int  `json:"c"`
	Desc    string `json:"d"`
}

// Main is the entry point of the driver.
func Main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "root of the verification tree")
	worker := flag.Int("worker", -1, "worker index (internal)")
	workers := flag.Int("workers", 0, "number of workers")
	dir := flag.String("dir", "", "scratch directory (internal)")
	resume := flag.String("resume", "", "resume after that case (internal)")
	one := flag.String("one", "", "run a single case: family:choices")
	replay := flag.String("replay", "", "replay a violation file")
	deadline := flag.Int("deadline", 0, "seconds before the exploration is cut short")
	list := flag.Bool("list", false, "list the properties")
	only := flag.String("family", "", "restrict to a family (debugging)")
	flag.Parse()
	if *list {
		ids := All()
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, Lookup(id).Title)
		}
		return
	}
	if *replay != "" {
		os.Exit(replayFile(*replay))
	}
	p := Lookup(*prop)
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	debug.SetMaxStack(128 << 20)
	if *one != "" {
		Confirming = true
		os.Exit(runOne(p, *tier, *one, true))
	}
	if *deadline == 0 {
		*deadline = 420
		if *tier == "thorough" {
			*deadline = 5400
		}
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 16 {
			*workers = 16
		}
	}
	fams := p.Families(*tier)
	if *only != "" {
		sel := []Family{}
		for _, f := range fams {
			if f.Name == *only {
				sel = append(sel, f)
			}
		}
		fams = sel
	}
	if *worker >= 0 {
		runWorker(p, fams, *tier, *verif, *worker, *workers, *dir, *resume, *deadline)
		return
	}
	os.Exit(parent(p, fams, *tier, *verif, *workers, *deadline, *only))
}

func parseOne(fams []Family, spec string) (*Family, []int, error) {
	name, vec, _ := strings.Cut(spec, ":")
	for i := range fams {
		if fams[i].Name == name {
			c := []int{}
			if vec != "" {
				for _, s := range strings.Split(vec, ",") {
					v, err := strconv.Atoi(s)
					if err != nil {
						return nil, nil, err
					}
					c = append(c, v)
				}
			}
			return &fams[i], c, nil
		}
	}
	return nil, nil, fmt.Errorf("unknown family %q", name)
}

// runOne runs one case: exit status 0 if the property holds, 1 otherwise.
func runOne(p *Property, tier, spec string, verbose bool) int {
	f, choices, err := parseOne(p.Families(tier), spec)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	g := &Gen{choices: choices}
	c := f.Gen(g)
	if c == nil {
		fmt.Fprintln(os.Stderr, "the choices lead to no case")
		return 2
	}
	if verbose {
		fmt.Println("case:", c.Desc)
	}
	if err := c.Check(&Run{}); err != nil {
		fmt.Println("FAIL:", err)
		return 1
	}
	if verbose {
		fmt.Println("holds")
	}
	return 0
}

func runWorker(p *Property, fams []Family, tier, verif string, idx, n int, dir, resume string, deadline int) {
	rec := newRecorder()
	known := map[string]bool{}
	for _, k := range loadKnown(verif, p.ID) {
		known[k.Desc] = true
	}
	fresh := 0
	res := shardResult{Samples: map[string]string{}, PerFamily: map[string]int64{}}
	// the case in progress is always on file: the parent reads it if this process dies
	cur, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("cur.%d", idx)), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	startFam := 0
	var from []int
	if resume != "" {
		var lc lastCase
		b, err := os.ReadFile(resume)
		if err != nil || json.Unmarshal(b, &lc) != nil {
			fmt.Fprintln(os.Stderr, "cannot resume")
			os.Exit(2)
		}
		startFam, from = lc.Family, lc.Choices
	}
	start := time.Now()
	var inCase atomic.Int64 // start of the case in progress (unix ns), 0 if none
	go func() {
		for {
			time.Sleep(time.Second)
			if t := inCase.Load(); t != 0 && time.Since(time.Unix(0, t)) > hangAfter {
				fmt.Fprintln(os.Stderr, "HANG: a single case is running for more than", hangAfter)
				os.Exit(97)
			}
		}
	}()
	buf := []byte{}
	stop := false
	for fi := startFam; fi < len(fams) && !stop; fi++ {
		f := &fams[fi]
		var counter int64 = -1
		if from != nil {
			// recompute the position of the resumed case
			counter = -1
			explore(f, nil, nil, func(c *Case, choices []int) bool {
				counter++
				return choicesString(choices) != choicesString(from)
			})
		}
		explore(f, from, rec, func(c *Case, choices []int) bool {
			counter++
			if counter%int64(n) != int64(idx) {
				return true
			}
			if time.Since(start) > time.Duration(deadline)*time.Second {
				res.Deadline = true
				stop = true
				return false
			}
			buf = buf[:0]
			buf = append(buf, strconv.Itoa(fi)...)
			buf = append(buf, ' ')
			buf = append(buf, choicesString(choices)...)
			buf = append(buf, '\n')
			cur.WriteAt(buf, 0)
			inCase.Store(time.Now().UnixNano())
			err := safeCheck(c, &Run{
				rec:   rec,
				alive: func() { inCase.Store(time.Now().UnixNano()) },
				expired: func() bool {
					if time.Since(start) > time.Duration(deadline)*time.Second {
						res.Deadline = true
					}
					return res.Deadline
				},
			})
			inCase.Store(0)
			res.Executed++
			res.PerFamily[f.Name]++
			{
				res.Samples[f.Name] = c.Desc
			}
			if err != nil {
				res.Failures = append(res.Failures, Failure{Family: f.Name, Choices: append([]int{}, choices...), Desc: c.Desc, Message: err.Error(), Kind: "property"})
				if !known[c.Desc] {
					fresh++
				}
				if fresh >= maxFailures() {
					res.Deadline = true
					stop = true
					return false
				}
			}
			return true
		})
		from = nil
	}
	res.Done = true
	res.Transitions = rec.transitions
	res.Nodes = rec.nodes
	res.Schedules, res.Decisions = rec.schedules, rec.decisions
	for k := range rec.states {
		res.States = append(res.States, k)
	}
	for k := range rec.outcomes {
		res.Outcomes = append(res.Outcomes, k)
	}
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	name := fmt.Sprintf("res.%d.%d", idx, time.Now().UnixNano())
	if err := os.WriteFile(filepath.Join(dir, name), b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// Confirming tells that this process runs a single case, to confirm its failure.
var Confirming bool

var hangAfter = 60 * time.Second

// safeCheck converts a panic of the calling goroutine into a failure (a panic in a goroutine of the
// library kills the worker: the parent deals with it).
func safeCheck(c *Case, r *Run) (err error) {
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(harnessError); ok {
				fmt.Fprintln(os.Stderr, "harness error:", string(s))
				os.Exit(98)
			}
			err = fmt.Errorf("panic: %v\n%s", x, trimStack(debug.Stack()))
		}
	}()
	return c.Check(r)
}

type harnessError string

// Harness aborts the check: the machinery (not the code under test) is broken.
func Harness(format string, a ...interface{}) { panic(harnessError(fmt.Sprintf(format, a...))) }

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func parent(p *Property, fams []Family, tier, verif string, workers, deadline int, only string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var mu sync.Mutex
	extra := []Failure{} // crashes and hangs
	harnessBroken := false
	incomplete := false
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			resume := ""
			for crashes := 0; ; crashes++ {
				left := deadline - int(time.Since(start).Seconds())
				if left < 1 {
					left = 1
				}
				args := []string{"-prop", p.ID, "-tier", tier, "-worker", strconv.Itoa(w), "-workers", strconv.Itoa(workers), "-dir", dir, "-deadline", strconv.Itoa(left), "-family", only, "-verif", verif}
				if resume != "" {
					args = append(args, "-resume", resume)
				}
				cmd := exec.Command(self, args...)
				wd := filepath.Join(dir, fmt.Sprintf("wd.%d", w))
				os.MkdirAll(wd, 0o700)
				cmd.Dir = wd
				cmd.Env = workerEnv()
				var stderr tail
				cmd.Stderr = &stderr
				err := cmd.Run()
				if err == nil {
					return
				}
				code := cmd.ProcessState.ExitCode()
				if code == 98 || code == 2 && strings.Contains(stderr.String(), "divergence") {
					mu.Lock()
					harnessBroken = true
					mu.Unlock()
					fmt.Fprintln(os.Stderr, stderr.String())
					return
				}
				// the worker died while running a case
				b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("cur.%d", w)))
				line, _, _ := strings.Cut(string(b), "\n")
				fis, vec, _ := strings.Cut(line, " ")
				fi, err2 := strconv.Atoi(fis)
				if err2 != nil || fi >= len(fams) {
					mu.Lock()
					harnessBroken = true
					mu.Unlock()
					fmt.Fprintf(os.Stderr, "worker %d died without a case: %v\n%s\n", w, err, stderr.String())
					return
				}
				_, choices, _ := parseOne(fams, fams[fi].Name+":"+vec)
				g := &Gen{choices: append([]int{}, choices...)}
				c := fams[fi].Gen(g)
				desc := ""
				if c != nil {
					desc = c.Desc
				}
				kind := "crash"
				if code == 97 {
					kind = "hang"
				}
				mu.Lock()
				extra = append(extra, Failure{Family: fams[fi].Name, Choices: choices, Desc: desc, Message: stderr.String(), Kind: kind})
				mu.Unlock()
				lc, _ := json.Marshal(lastCase{Family: fi, Choices: choices})
				resume = filepath.Join(dir, fmt.Sprintf("resume.%d", w))
				os.WriteFile(resume, lc, 0o600)
				if crashes >= 8 && os.Getenv("VERIF_SURVEY") == "" || crashes > 300 {
					mu.Lock()
					incomplete = true
					mu.Unlock()
					return
				}
			}
		}(w)
	}
	wg.Wait()
	if harnessBroken {
		return 2
	}
	// merge
	states := map[uint64]struct{}{}
	outcomes := map[uint64]struct{}{}
	perFamily := map[string]int64{}
	samples := map[string]string{}
	var executed, nodes, transitions, schedules, decisions int64
	exhaustive := !incomplete
	failures := extra
	files, _ := filepath.Glob(filepath.Join(dir, "res.*"))
	seenShard := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var r shardResult
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		seenShard[strings.Split(filepath.Base(f), ".")[1]] = true
		executed += r.Executed
		schedules += r.Schedules
		decisions += r.Decisions
		for k, v := range r.PerFamily {
			perFamily[k] += v
		}
		for _, s := range r.States {
			states[s] = struct{}{}
		}
		for _, s := range r.Outcomes {
			outcomes[s] = struct{}{}
		}
		// every worker walks the whole choice tree: count it once
		if r.Transitions > transitions {
			transitions = r.Transitions
		}
		if r.Nodes > nodes {
			nodes = r.Nodes
		}
		for k, v := range r.Samples {
			samples[k] = v
		}
		if r.Deadline {
			exhaustive = false
		}
		failures = append(failures, r.Failures...)
	}
	if len(seenShard) < workers {
		exhaustive = false
	}
	// confirm the failures, in a fresh process each time
	known := loadKnown(verif, p.ID)
	knownHit := map[int]bool{}
	violations := []Failure{}
	sort.SliceStable(failures, func(i, j int) bool { return len(failures[i].Desc) < len(failures[j].Desc) })
	unknown := 0
	flaky := 0
	if os.Getenv("VERIF_SURVEY") != "" {
		survey(failures)
	}
	for _, f := range failures {
		k := -1
		for i := range known {
			if known[i].Desc == f.Desc {
				k = i
			}
		}
		if k >= 0 {
			knownHit[k] = true
			continue
		}
		unknown++
		if len(violations) >= 5 {
			continue
		}
		if confirmFailure(self, p.ID, tier, f, dir) {
			violations = append(violations, f)
		} else {
			flaky++
			fmt.Printf("NOT-REPRODUCED: %s (%s): %s\n", f.Family, f.Kind, oneLine(f.Desc, 200))
		}
	}
	for i, k := range known {
		if knownHit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, oneLine(k.What, 300))
		}
	}
	nStates := int64(len(states)) + nodes + decisions
	transitions += decisions
	executed += schedules
	smp := []interface{}{}
	names := []string{}
	for k := range samples {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		smp = append(smp, map[string]string{"family": k, "case": clip(samples[k], 600)})
	}
	ev := map[string]interface{}{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed(),
		"level":    "model_checking",
		"coverage": map[string]interface{}{
			"states":                        nStates,
			"transitions":                   transitions,
			"traces_validated_against_impl": executed,
			"schedules":                     schedules,
			"distinct_outcomes":             len(outcomes),
			"executions_per_family":         perFamily,
			"samples":                       smp,
			"exhaustive":                    exhaustive,
			"known_findings_seen":           len(knownHit),
			"not_reproduced":                flaky,
			"rule":                          p.Bounds,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(violations),
	}
	if err := writeEvidence(verif, p.ID, ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: states=%d transitions=%d executions=%d outcomes=%d exhaustive=%t failures=%d known=%d wall=%.1fs\n", p.ID, nStates, transitions, executed, len(outcomes), exhaustive, unknown, len(knownHit), time.Since(start).Seconds())
	if len(violations) == 0 {
		return 0
	}
	for i, f := range violations {
		path := filepath.Join(verif, "evidence", fmt.Sprintf("%s.violation.%d.json", p.ID, i+1))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": p.ID, "tier": tier, "family": f.Family, "choices": f.Choices, "case": f.Desc, "message": f.Message, "kind": f.Kind,
			"replay": fmt.Sprintf("bash /verif/replay.sh %s", path)}, "", "  ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  [%s/%s] %s\n  %s\n", f.Family, f.Kind, clip(f.Desc, 1000), clip(f.Message, 1500))
	}
	return 1
}

// maxFailures is the number of failures after which a worker stops.
func maxFailures() int {
	if os.Getenv("VERIF_SURVEY") != "" {
		return 100000
	}
	return 40
}

// survey prints the failures grouped by kind of message (debugging aid).
func survey(failures []Failure) {
	groups := map[string][]Failure{}
	for _, f := range failures {
		m := strings.SplitN(f.Message, "\n", 2)[0]
		sb := strings.Builder{}
		if i := strings.IndexByte(m, '['); i > 0 {
			m = m[:i]
		}
		for i, part := range strings.Split(m, "\"") {
			if i%2 == 0 {
				sb.WriteString(strings.Map(func(r rune) rune {
					if r >= '0' && r <= '9' {
						return -1
					}
					return r
				}, part))
			} else {
				sb.WriteString("Q")
			}
		}
		k := f.Family + ": " + f.Kind + ": " + sb.String()
		groups[k] = append(groups[k], f)
	}
	keys := []string{}
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return len(groups[keys[i]]) > len(groups[keys[j]]) })
	for _, k := range keys {
		fmt.Printf("GROUP %d  %s\n", len(groups[k]), clip(k, 300))
		for i := 0; i < len(groups[k]) && i < surveyExamples(); i++ {
			fmt.Printf("      %s\n", clip(groups[k][i].Desc, 400))
			if os.Getenv("VERIF_MSG") != "" {
				fmt.Printf("        | %s\n", strings.ReplaceAll(clip(groups[k][i].Message, 1500), "\n", "\n        | "))
			}
		}
	}
}

func surveyExamples() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_SURVEY")); err == nil && n > 1 {
		return n
	}
	return 3
}

func workerEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "GOMEMLIMIT=") || strings.HasPrefix(e, "GOTRACEBACK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOMAXPROCS=2", "GOTRACEBACK=single", "GOMEMLIMIT=2GiB")
}

func confirmFailure(self, prop, tier string, f Failure, dir string) bool {
	for i := 0; i < 5; i++ {
		cmd := exec.Command(self, "-prop", prop, "-tier", tier, "-one", f.Family+":"+choicesString(f.Choices))
		wd, err := os.MkdirTemp(dir, "confirm")
		if err != nil {
			return false
		}
		cmd.Dir = wd
		cmd.Env = workerEnv()
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			return false
		}
		go func() { done <- cmd.Wait() }()
		limit := 2 * hangAfter
		if f.Kind == "hang" && i >= 1 {
			return true
		}
		select {
		case err := <-done:
			if err == nil {
				return false
			}
		case <-time.After(limit):
			cmd.Process.Kill()
			<-done
			if f.Kind != "hang" {
				return false
			}
		}
	}
	return true
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v struct {
		Property, Tier, Family string
		Choices                []int
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := Lookup(v.Property)
	if p == nil {
		return 2
	}
	return runOne(p, v.Tier, v.Family+":"+choicesString(v.Choices), true)
}

func writeEvidence(verif, id string, ev map[string]interface{}) error {
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	buf := &bytes.Buffer{}
	enc := json.NewEncoder(buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	if err := enc.Encode(ev); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, id+".json"), buf.Bytes(), 0o644)
}

func seed() int {
	if v, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		return v
	}
	return 1
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func oneLine(s string, n int) string {
	return clip(strings.ReplaceAll(s, "\n", "\\n"), n)
}

// tail keeps the first and the last bytes written.
type tail struct {
	head, buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	if len(t.head) < 3000 {
		n := 3000 - len(t.head)
		if n > len(p) {
			n = len(p)
		}
		t.head = append(t.head, p[:n]...)
		t.buf = append(t.buf, p[n:]...)
	} else {
		t.buf = append(t.buf, p...)
	}
	if len(t.buf) > 6000 {
		t.buf = t.buf[len(t.buf)-3000:]
	}
	return len(p), nil
}

func (t *tail) String() string {
	s := string(t.head)
	if len(t.buf) > 0 {
		s += "\n...\n" + string(t.buf)
	}
	return s
}

var _ = bufio.NewReader
