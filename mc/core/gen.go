// Package core is the bounded model checking engine shared by every property:
// a choice-driven exhaustive explorer (depth-first over all choice vectors),
// process-isolated workers, failure confirmation, known findings and evidence.
package core

import (
	"fmt"
	"strings"
)

// Gen is the source of every nondeterministic choice of one execution. An execution is a pure
// function of the vector of answers; the explorer enumerates all vectors.
type Gen struct {
	choices []int // answers to replay
	sizes   []int
	pos     int
	fresh   int // positions >= fresh were not shared with the previous execution
	labels  []string
	rec     *recorder
	budget  int
	skip    bool
}

// Choose returns a value in [0,n). Every value is explored.
func (g *Gen) Choose(n int) int {
	if n <= 0 {
		panic("Choose: empty domain")
	}
	if g.pos == len(g.choices) {
		g.choices = append(g.choices, 0)
		g.sizes = append(g.sizes, n)
	} else if g.pos < len(g.sizes) {
		if g.sizes[g.pos] != n {
			panic(fmt.Sprintf("divergence while replaying a prefix: choice %d has %d alternatives, had %d", g.pos, n, g.sizes[g.pos]))
		}
	} else {
		g.sizes = append(g.sizes, n)
	}
	v := g.choices[g.pos]
	if v >= n {
		panic(fmt.Sprintf("divergence while replaying: choice %d = %d out of range %d", g.pos, v, n))
	}
	if g.rec != nil && g.pos >= g.fresh {
		g.rec.transitions++
	}
	g.pos++
	return v
}

// Pick chooses one of the given strings.
func (g *Gen) Pick(ss ...string) string { return ss[g.Choose(len(ss))] }

// PickOf chooses one of the elements of the slice.
func PickOf[T any](g *Gen, ss []T) T { return ss[g.Choose(len(ss))] }

// Bool explores both truth values, false first.
func (g *Gen) Bool() bool { return g.Choose(2) == 1 }

// SetBudget sets the number of deviations that Dev may spend in this execution.
func (g *Gen) SetBudget(n int) { g.budget = n }

// Dev is a choice with a default (0); every other value costs one unit of the deviation budget.
func (g *Gen) Dev(n int) int {
	if g.budget <= 0 || n <= 1 {
		return 0
	}
	v := g.Choose(n)
	if v != 0 {
		g.budget--
	}
	return v
}

// State records the canonical form of the model state reached so far.
func (g *Gen) State(parts ...interface{}) {
	if g.rec != nil {
		g.rec.explicit = true
		if g.pos >= g.fresh {
			g.rec.state(g.rec.family + "|" + fmt.Sprint(parts...))
		}
	}
}

// Vector is the text of the choices made so far.
func (g *Gen) Vector() string { return choicesString(g.choices[:g.pos]) }

// Skip abandons the current vector: it is not a case of the space (redundant or out of scope).
func (g *Gen) Skip() *Case { g.skip = true; return nil }

// Case is one complete execution to validate against the implementation.
type Case struct {
	// Desc identifies the case (its inputs), used in reports and to match known findings.
	Desc string
	// Check runs the real code and returns an error if the property does not hold.
	Check func(r *Run) error
}

// Run is passed to Case.Check, to record what was observed.
type Run struct {
	rec     *recorder
	alive   func()
	expired func() bool
}

// Alive tells that a case which runs many executions goes on, and whether the time is over.
func (r *Run) Alive() (expired bool) {
	if r.alive != nil {
		r.alive()
	}
	return r.expired != nil && r.expired()
}

// Outcome records an observed outcome (hashed; the number of distinct ones is reported).
func (r *Run) Outcome(s string) {
	if r != nil && r.rec != nil {
		r.rec.outcome(s)
	}
}

// Schedules records executions made by the case itself under other schedules, and the number of
// scheduling decisions they took.
func (r *Run) Schedules(executions, decisions int64) {
	if r != nil && r.rec != nil {
		r.rec.schedules += executions
		r.rec.decisions += decisions
	}
}

// Family is a finite space of executions.
type Family struct {
	Name string
	// Gen builds one case from the choices of g, cheaply and without running the implementation.
	Gen func(g *Gen) *Case
	// Thorough-only families are skipped by the quick tier.
	ThoroughOnly bool
}

// Property groups the families that decide one property.
type Property struct {
	ID       string
	Title    string
	Families func(tier string) []Family
	// Bounds describes the alphabet and the bounds, for the evidence.
	Bounds      string
	Assumptions []string
}

var registry = map[string]*Property{}

// Register makes a property available to the driver.
func Register(p *Property) {
	if _, dup := registry[p.ID]; dup {
		panic("duplicate " + p.ID)
	}
	registry[p.ID] = p
}

// Lookup finds a property.
func Lookup(id string) *Property { return registry[id] }

// All lists the property ids.
func All() []string {
	r := []string{}
	for k := range registry {
		r = append(r, k)
	}
	return r
}

func choicesString(c []int) string {
	sb := strings.Builder{}
	for i, v := range c {
		if i > 0 {
			sb.WriteByte(',')
		}
		fmt.Fprintf(&sb, "%d", v)
	}
	return sb.String()
}

// explore enumerates all the choice vectors of the family, depth first, starting after `from`
// (nil: from the beginning), and calls visit with the leaf. visit returns false to stop.
func explore(f *Family, from []int, rec *recorder, visit func(c *Case, choices []int) bool) {
	g := &Gen{rec: rec}
	if from != nil {
		// re-run once to learn the sizes, without counting nor visiting
		g.rec = nil
		g.choices = append([]int{}, from...)
		f.Gen(g)
		if !g.next() {
			return
		}
		g.rec = rec
	}
	for {
		g.pos = 0
		g.skip = false
		g.budget = 0
		if rec != nil {
			rec.family = f.Name
			rec.explicit = false
		}
		c := f.Gen(g)
		g.choices = g.choices[:g.pos]
		g.sizes = g.sizes[:g.pos]
		if rec != nil && !rec.explicit {
			// the states are the nodes of the choice tree
			for i := g.fresh; i < g.pos; i++ {
				rec.nodes++
			}
		}
		if c != nil && !g.skip {
			if !visit(c, g.choices) {
				return
			}
		}
		if !g.next() {
			return
		}
	}
}

// next moves to the next vector in depth-first order.
func (g *Gen) next() bool {
	i := len(g.choices) - 1
	for i >= 0 && g.choices[i]+1 >= g.sizes[i] {
		i--
	}
	if i < 0 {
		return false
	}
	g.choices = g.choices[:i+1]
	g.sizes = g.sizes[:i+1]
	g.choices[i]++
	g.fresh = i
	return true
}
