package verifkit

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
)

// shard of shards: which part of the work this process does.
var shard, shards = 0, 1

type shardReport struct {
	States, Distinct     []string
	Transitions, Traces  int64
	Evaluations          int64
	Outcomes             map[string]int64
	Samples, Assumptions []string
	Notes                map[string]string
	Violations           []*Violation
	Capped               []string
	Expired              bool
}

// Fork distributes the work to processes: the parent collects the reports of
// its children and exits; it returns in the children, where Parallel and
// Lockstep do only their share. Database code scales over processes, but not
// over threads, as it locks memory.
func (r *R) Fork() {
	if s := os.Getenv("VK_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &shard, &shards)
		sc := filepath.Join(os.Getenv("VK_SCRATCH"), fmt.Sprint("shard", shard))
		if err := os.MkdirAll(sc, 0700); err != nil {
			panic(err)
		}
		os.Setenv("VK_SCRATCH", sc)
		os.Setenv("TMPDIR", sc)
		os.Setenv("HOME", sc)
		os.Chdir(sc)
		return
	}
	n := runtime.NumCPU()
	dir, err := ioutil.TempDir(os.Getenv("VK_SCRATCH"), "fork")
	if err != nil {
		panic(err)
	}
	var cmds []*exec.Cmd
	for i := 0; i < n; i++ {
		c := exec.Command(os.Args[0], os.Args[1:]...)
		c.Env = append(os.Environ(), fmt.Sprintf("VK_SHARD=%d/%d", i, n),
			"VK_OUT="+filepath.Join(dir, strconv.Itoa(i)), "VK_SCRATCH="+dir)
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		if err := c.Start(); err != nil {
			panic(err)
		}
		cmds = append(cmds, c)
	}
	failed := false
	for i, c := range cmds {
		werr := c.Wait()
		b, err := ioutil.ReadFile(filepath.Join(dir, strconv.Itoa(i)))
		if werr != nil || err != nil {
			fmt.Fprintf(os.Stderr, "shard %d: %v %v\n", i, werr, err)
			failed = true
			continue
		}
		var s shardReport
		if err := json.Unmarshal(b, &s); err != nil {
			panic(err)
		}
		r.merge(i, &s)
	}
	os.RemoveAll(dir)
	if failed {
		os.Exit(2)
	}
	r.Done()
	os.Exit(0)
}

func (r *R) merge(i int, s *shardReport) {
	put := func(m map[[16]byte]struct{}, l []string) {
		for _, h := range l {
			var k [16]byte
			b, _ := hex.DecodeString(h)
			copy(k[:], b)
			m[k] = struct{}{}
		}
	}
	put(r.states, s.States)
	put(r.distinct, s.Distinct)
	r.trans += s.Transitions
	r.traces += s.Traces
	r.evals += s.Evaluations
	for k, v := range s.Outcomes {
		r.outcomes[k] += v
	}
	for k, x := range s.Samples {
		if k < 2 {
			r.Sample("%s", x)
		}
	}
	for _, a := range s.Assumptions {
		if !strings.Contains(strings.Join(r.assume, "\n"), a) {
			r.assume = append(r.assume, a)
		}
	}
	for k, v := range s.Notes {
		if old, ok := r.notes[k]; ok && fmt.Sprint(old) != v {
			k = fmt.Sprintf("%s (shard %d)", k, i)
		}
		r.notes[k] = v
	}
	for _, v := range s.Violations {
		if o, ok := r.viol[v.Sig]; ok {
			o.Count += v.Count
			continue
		}
		r.viol[v.Sig] = v
		r.order = append(r.order, v.Sig)
	}
	for _, c := range s.Capped {
		r.capped = append(r.capped, fmt.Sprintf("shard %d: %s", i, c))
	}
	if s.Expired {
		r.expired = 1
	}
}

// writeShard writes a child's report.
func (r *R) writeShard(out string) {
	list := func(m map[[16]byte]struct{}) (l []string) {
		for k := range m {
			l = append(l, hex.EncodeToString(k[:]))
		}
		return
	}
	s := &shardReport{States: list(r.states), Distinct: list(r.distinct), Transitions: r.trans, Traces: r.traces,
		Evaluations: r.evals, Outcomes: r.outcomes, Samples: r.samples, Assumptions: r.assume, Capped: r.capped,
		Expired: r.expired != 0, Notes: map[string]string{}}
	for k, v := range r.notes {
		s.Notes[k] = fmt.Sprint(v)
	}
	for _, sig := range r.order {
		s.Violations = append(s.Violations, r.viol[sig])
	}
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(out, b, 0600); err != nil {
		panic(err)
	}
}

// Mine reports whether work item i is done by this process.
func Mine(i int) bool { return i%shards == shard }
