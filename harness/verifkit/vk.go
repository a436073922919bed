// Package verifkit is the runtime of the checks in /verif. It is put next to
// the code of the repository with a build overlay and is no part of it.
package verifkit

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one property violation found by a check.
type Violation struct {
	Sig    string `json:"sig"`    // identifies what fails, stable over runs
	Detail string `json:"detail"` // what was observed
	Replay string `json:"replay"` // the operations or input that show it
	Count  int    `json:"count"`
}

// R collects what a check explored and found.
type R struct {
	ID   string
	Tier string
	Seed int64

	start    time.Time
	deadline time.Time
	mu       sync.Mutex
	states   map[[16]byte]struct{}
	outcomes map[string]int64
	distinct map[[16]byte]struct{}
	evals    int64
	trans    int64
	traces   int64
	samples  []string
	assume   []string
	notes    map[string]interface{}
	viol     map[string]*Violation
	order    []string
	expired  int32
	capped   []string
}

// Start begins a check.
func Start(id string) *R {
	r := &R{
		ID: id, Tier: os.Getenv("VERIF_TIER"),
		start:    time.Now(),
		states:   make(map[[16]byte]struct{}),
		outcomes: make(map[string]int64),
		distinct: make(map[[16]byte]struct{}),
		notes:    make(map[string]interface{}),
		viol:     make(map[string]*Violation),
	}
	if r.Tier == "" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs := 420
	if r.Thorough() {
		secs = 3600
	}
	if s, err := strconv.Atoi(os.Getenv("VK_SECONDS")); err == nil {
		secs = s
	}
	r.deadline = r.start.Add(time.Duration(secs) * time.Second)
	return r
}

// Thorough reports whether the thorough tier runs.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick and t in the thorough tier.
func (r *R) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Expired reports whether the internal deadline has passed.
func (r *R) Expired() bool {
	if atomic.LoadInt32(&r.expired) != 0 {
		return true
	}
	if time.Now().After(r.deadline) {
		atomic.StoreInt32(&r.expired, 1)
		return true
	}
	return false
}

// Cap records that a bound was hit before the space was covered.
func (r *R) Cap(what string) {
	r.mu.Lock()
	r.capped = append(r.capped, what)
	r.mu.Unlock()
}

func h16(s string) (h [16]byte) {
	x := sha256.Sum256([]byte(s))
	copy(h[:], x[:16])
	return
}

// State records a state and reports whether it is new.
func (r *R) State(key string) bool {
	h := h16(key)
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.states[h]; ok {
		return false
	}
	r.states[h] = struct{}{}
	return true
}

// Trans counts an executed transition.
func (r *R) Trans() { atomic.AddInt64(&r.trans, 1) }

// Trace counts a model trace compared with the implementation.
func (r *R) Trace() { atomic.AddInt64(&r.traces, 1) }

// Eval counts an evaluated case; key tells cases apart, nontrivial ones have
// a key that is not empty.
func (r *R) Eval(key string) {
	atomic.AddInt64(&r.evals, 1)
	if key == "" {
		return
	}
	h := h16(key)
	r.mu.Lock()
	r.distinct[h] = struct{}{}
	r.mu.Unlock()
}

// Outcome counts an observed outcome class.
func (r *R) Outcome(o string) {
	r.mu.Lock()
	r.outcomes[o]++
	r.mu.Unlock()
}

// Sample keeps a few of the cases for the evidence.
func (r *R) Sample(format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 12 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.samples = append(r.samples, s)
	}
}

// Assume records an assumption.
func (r *R) Assume(s string) {
	r.mu.Lock()
	r.assume = append(r.assume, s)
	r.mu.Unlock()
}

// Note puts an additional value into the evidence.
func (r *R) Note(k string, v interface{}) {
	r.mu.Lock()
	r.notes[k] = v
	r.mu.Unlock()
}

// Fail records a violation.
func (r *R) Fail(sig, detail, replay string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	v, ok := r.viol[sig]
	if !ok {
		if len(r.viol) >= 200 {
			return
		}
		if len(detail) > 4000 {
			detail = detail[:4000] + "..."
		}
		if len(replay) > 20000 {
			replay = replay[:20000] + "..."
		}
		v = &Violation{Sig: sig, Detail: detail, Replay: replay}
		r.viol[sig] = v
		r.order = append(r.order, sig)
	}
	v.Count++
}

// Failures returns the number of distinct violations so far.
func (r *R) Failures() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol)
}

// Bad is a property violation as an error.
type Bad struct{ Sig, Detail string }

func (b *Bad) Error() string { return b.Sig + ": " + b.Detail }

// Badf returns a violation with signature sig.
func Badf(sig, format string, args ...interface{}) error {
	return &Bad{sig, fmt.Sprintf(format, args...)}
}

// Guard runs f and turns a panic into a violation.
func Guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = &Bad{"panic:" + where(), fmt.Sprintf("panic: %v\n%s", p, clip(debug.Stack()))}
		}
	}()
	return f()
}

func clip(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

// where names the innermost repository function on the panicking stack.
func where() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "mutecomm/mute/") &&
			!strings.Contains(f.Function, "mutecomm/mute/verifkit") {
			fn := f.Function
			return fn[strings.Index(fn, "mutecomm/mute/")+len("mutecomm/mute/"):]
		}
		if !more {
			return "unknown"
		}
	}
}

// Panics runs f and returns the violation of a panic, if any.
func Panics(f func()) error {
	return Guard(func() error { f(); return nil })
}

// Case runs f; if f reports a violation it is run four more times and the
// violation is recorded only if it shows every time. desc is the replay.
func (r *R) Case(desc string, f func() error) bool {
	err := Guard(f)
	if err == nil {
		return true
	}
	sig := sigOf(err)
	r.mu.Lock()
	v, known := r.viol[sig]
	if known {
		v.Count++
	}
	r.mu.Unlock()
	if known {
		return false
	}
	for i := 0; i < 4; i++ {
		if e := Guard(f); e == nil || sigOf(e) != sig {
			r.mu.Lock()
			r.notes["unstable:"+sig] = fmt.Sprintf("%v then %v: %s", err, e, desc)
			r.mu.Unlock()
			return false
		}
	}
	r.Fail(sig, err.Error(), desc)
	return false
}

func sigOf(err error) string {
	if b, ok := err.(*Bad); ok {
		return b.Sig
	}
	return "error"
}

// Parallel runs f(i) for 0<=i<n on all processors until the deadline. It
// reports whether all were run.
func (r *R) Parallel(n int, f func(i int)) bool { return r.parallel(n, Mine, f) }

// all does the same in every process.
func (r *R) all(n int, f func(i int)) bool {
	return r.parallel(n, func(int) bool { return true }, f)
}

func (r *R) parallel(n int, mine func(int) bool, f func(i int)) bool {
	var next int64 = -1
	var skipped int32
	var wg sync.WaitGroup
	w := runtime.NumCPU()
	if shards > 1 {
		w = 1
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if r.Expired() {
					atomic.StoreInt32(&skipped, 1)
					return
				}
				if !mine(i) {
					continue
				}
				f(i)
			}
		}()
	}
	wg.Wait()
	return skipped == 0
}

// Done writes the report.
func (r *R) Done() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if shards > 1 {
		r.writeShard(os.Getenv("VK_OUT"))
		return
	}
	var vs []*Violation
	for _, s := range r.order {
		vs = append(vs, r.viol[s])
	}
	if r.expired != 0 {
		r.capped = append(r.capped, "internal deadline")
	}
	rep := map[string]interface{}{
		"id": r.ID, "tier": r.Tier, "seed": r.Seed,
		"states": len(r.states), "transitions": r.trans, "traces": r.traces,
		"evaluations": r.evals, "distinct": len(r.distinct),
		"outcomes": r.outcomes, "samples": r.samples, "assumptions": r.assume,
		"notes": r.notes, "violations": vs, "capped": r.capped,
		"wall_s": time.Since(r.start).Seconds(),
	}
	b, err := json.MarshalIndent(rep, "", " ")
	if err != nil {
		panic(err)
	}
	out := os.Getenv("VK_OUT")
	if out == "" {
		fmt.Println(string(b))
		return
	}
	if err := ioutil.WriteFile(out, b, 0600); err != nil {
		panic(err)
	}
}

// Rand is a deterministic random source.
type Rand struct {
	mu  sync.Mutex
	st  [32]byte
	buf []byte
}

// NewRand returns a deterministic random source for the given seed.
func NewRand(seed string) *Rand {
	return &Rand{st: sha256.Sum256([]byte(seed))}
}

// Read implements io.Reader.
func (d *Rand) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	n := len(p)
	for len(p) > 0 {
		if len(d.buf) == 0 {
			d.st = sha256.Sum256(d.st[:])
			o := sha256.Sum256(append([]byte("out"), d.st[:]...))
			d.buf = o[:]
		}
		k := copy(p, d.buf)
		p, d.buf = p[k:], d.buf[k:]
	}
	return n, nil
}

// Sequences calls f with every sequence of length n over 0..k-1 until f
// returns false for a prefix to prune it.
func Sequences(k, n int, f func(seq []int)) {
	seq := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(seq)
			return
		}
		for a := 0; a < k; a++ {
			seq[i] = a
			rec(i + 1)
		}
	}
	rec(0)
}

func h32(seed string, a, b uint64) [32]byte {
	buf := make([]byte, 0, len(seed)+16)
	buf = append(buf, seed...)
	for i := uint(0); i < 8; i++ {
		buf = append(buf, byte(a>>(8*i)))
	}
	for i := uint(0); i < 8; i++ {
		buf = append(buf, byte(b>>(8*i)))
	}
	return sha256.Sum256(buf)
}
