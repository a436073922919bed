package verifkit

import (
	"fmt"
	"strings"
	"sync/atomic"
)

// Sys is the system under test of a lockstep exploration.
type Sys interface {
	// Close releases it; called once, after the last operation.
	Close()
}

// Model is a reference model.
type Model interface {
	Key() string // canonical text of the state
}

// Op is an operation done on the system and on the model.
type Op struct {
	Name string
	// Enabled tells whether the operation is explored in this model state.
	Enabled func(m Model) bool
	// Do performs it on both and returns a violation if the results differ.
	Do func(s Sys, m Model) error
}

// Lockstep explores all sequences of operations up to a depth.
type Lockstep struct {
	Name  string
	Ops   []Op
	Depth int
	New   func() (Sys, Model, error)
	// Check compares all observable state at the end of every sequence.
	Check func(s Sys, m Model) error
	// Merge stops at model states reached before by a shorter sequence.
	Merge bool
}

type lsNode struct {
	seq []int
}

func (l *Lockstep) describe(seq []int) string {
	var n []string
	for _, o := range seq {
		n = append(n, l.Ops[o].Name)
	}
	return l.Name + ": " + strings.Join(n, "; ")
}

// run performs a sequence on a fresh system and returns the model's state,
// and which operations are enabled then.
func (l *Lockstep) run(seq []int) (key string, next []int, err error) {
	s, m, err := l.New()
	if err != nil {
		return "", nil, fmt.Errorf("setup: %v", err)
	}
	defer s.Close()
	for _, o := range seq {
		if err := l.Ops[o].Do(s, m); err != nil {
			return "", nil, err
		}
	}
	if err := l.Check(s, m); err != nil {
		return "", nil, err
	}
	for i := range l.Ops {
		if l.Ops[i].Enabled == nil || l.Ops[i].Enabled(m) {
			next = append(next, i)
		}
	}
	return m.Key(), next, nil
}

// Explore runs every sequence and reports whether all were run.
func (l *Lockstep) Explore(r *R) bool {
	level := []lsNode{{}}
	split := 3 // length of the sequences that are dealt out to the processes
	if shards == 1 || l.Depth < split {
		split = l.Depth + 1
	}
	for d := 0; d <= l.Depth; d++ {
		nexts := make([][]lsNode, len(level))
		var bad int32
		if shards > 1 && (d == split || (split > l.Depth && d == l.Depth)) {
			var mine []lsNode
			for i, n := range level {
				if Mine(i) {
					mine = append(mine, n)
				}
			}
			level = mine
		}
		if !r.all(len(level), func(i int) {
			seq := level[i].seq
			var key string
			var next []int
			ok := r.Case(l.describe(seq), func() (err error) {
				key, next, err = l.run(seq)
				return
			})
			if d >= split || d == l.Depth || shard == 0 {
				r.Trace()
				if len(seq) > 0 {
					r.Trans()
				}
			}
			if !ok {
				atomic.AddInt32(&bad, 1)
				return
			}
			fresh := r.State(l.Name + "\x00" + key)
			if d == l.Depth {
				r.Sample("%s", l.describe(seq))
			}
			if l.Merge && !fresh && !(d < split && shards > 1) {
				return
			}
			for _, o := range next {
				n := make([]int, 0, len(seq)+1)
				nexts[i] = append(nexts[i], lsNode{append(append(n, seq...), o)})
			}
		}) {
			return false
		}
		level = level[:0:0]
		for _, n := range nexts {
			level = append(level, n...)
		}
		r.Outcome(fmt.Sprintf("%s: depth %d", l.Name, d))
		if r.Failures() > 20 {
			return false
		}
	}
	return true
}

// Walk runs one given sequence of operations with a check after every step.
func (l *Lockstep) Walk(r *R, seq []int) bool {
	return r.Case(l.describe(seq), func() error {
		s, m, err := l.New()
		if err != nil {
			return err
		}
		defer s.Close()
		for _, o := range seq {
			if l.Ops[o].Enabled != nil && !l.Ops[o].Enabled(m) {
				continue
			}
			if err := l.Ops[o].Do(s, m); err != nil {
				return err
			}
			if err := l.Check(s, m); err != nil {
				return err
			}
			r.Trans()
			r.State(l.Name + "\x00" + m.Key())
		}
		r.Trace()
		return nil
	})
}
