//go:build verifsched

package props

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	"verif/mc/core"
)

// Kinds of decisions with alternatives.
const (
	kindSched = 1<<runtime.VerifSched | 1<<runtime.VerifWakeup
	kindCase  = 1 << runtime.VerifCase
	kindMap   = 1 << runtime.VerifMap
)

var schedOnce sync.Once

// schedules runs a body under all the schedules with a bounded number of deviations from the default one.
type schedules struct {
	kinds uint32
	salt  uint64
	bound int
	// the first deviation is at a decision with that index modulo the number of shards
	shard, shards int
	alive         func() bool
	expired       bool
	// body is run in a controlled goroutine: it returns what it observed
	body func() string
	// want is the expected observation
	want string
	// after is called after each run, with what was observed
	after func(got string) error

	executions, decisions int64
	mutex                 sync.Mutex
	got                   string
	ended                 bool
}

var runsSinceGC int

func (s *schedules) run(script []uint8) (k, n, c []uint8, err error) {
	schedOnce.Do(func() {
		runtime.GOMAXPROCS(1)
		debug.SetGCPercent(-1)
	})
	if s.alive != nil && s.alive() {
		s.expired = true
	}
	if runsSinceGC++; runsSinceGC%400 == 0 {
		runtime.GC()
	}
	s.got, s.ended = "", false
	r := runtime.VerifRun(s.kinds, s.salt, script, func() {
		got := s.body()
		s.mutex.Lock()
		s.got, s.ended = got, true
		s.mutex.Unlock()
	})
	s.mutex.Lock()
	got, ended := s.got, s.ended
	s.mutex.Unlock()
	tk, tn, tc := runtime.VerifTrace()
	k, n, c = append(k, tk...), append(n, tn...), append(c, tc...)
	s.executions++
	s.decisions += int64(len(n) - len(script))
	switch {
	case r.Overflow:
		err = fmt.Errorf("more than %d decisions: the execution does not seem to end", len(n))
	case r.Bad:
		core.Harness("the schedule can't be replayed: %v", script)
	case !ended:
		err = fmt.Errorf("deadlock: the call does not return (%d goroutines are blocked)", r.Left)
	case r.Left > 0:
		err = fmt.Errorf("%d goroutine(s) still blocked after the call", r.Left)
	case s.after != nil:
		err = s.after(got)
	case got != s.want:
		err = fmt.Errorf("the outcome differs:\n%s", firstDiff(s.want, got))
	}
	if err != nil {
		err = fmt.Errorf("%w\nschedule: %s", err, scheduleString(k, n, c))
	}
	return
}

func scheduleString(k, n, c []uint8) string {
	sb := &strings.Builder{}
	fmt.Fprintf(sb, "%d decisions;", len(n))
	for i := range c {
		if c[i] != 0 {
			fmt.Fprintf(sb, " at %d: %s %d of %d;", i, [...]string{"", "preempt", "select", "map", "next"}[k[i]], c[i], n[i])
		}
	}
	return sb.String()
}

func (s *schedules) explore() error {
	// what is only computed once (caches, pools...) is computed first
	if _, _, _, err := s.run(nil); err != nil {
		return err
	}
	_, n, c, err := s.run(nil)
	if err != nil {
		return err
	}
	return s.deviate(n, c, 0, s.bound)
}

func (s *schedules) deviate(n, c []uint8, from, left int) error {
	if left == 0 {
		return nil
	}
	for i := from; i < len(n); i++ {
		if left == s.bound && s.shards > 1 && i%s.shards != s.shard {
			continue
		}
		for v := uint8(1); v < n[i]; v++ {
			if s.expired {
				return nil
			}
			_, n2, c2, err := s.run(append(append([]uint8{}, c[:i]...), v))
			if err != nil {
				return err
			}
			if len(n2) <= i || n2[i] != n[i] {
				core.Harness("divergence: %d alternatives at decision %d, then %d", n[i], i, n2[i])
			}
			if err := s.deviate(n2, c2, i+1, left-1); err != nil {
				return err
			}
		}
	}
	return nil
}
