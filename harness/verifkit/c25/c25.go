// C25: no failing or interrupted step of sending and fetching loses,
// duplicates or misdirects mail.
//
// The real mutectrl, mutecrypt and muteproto run as processes and announce
// every step; the check makes steps fail, kills programs or all of them, and
// plays the mail server of the mix, the mix, and the account server. After
// healthy retries all mail must have arrived.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	vk "github.com/mutecomm/mute/verifkit"
)

var r *vk.R

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// fault makes the k-th step of a kind fail, counted from the command n on.
type fault struct {
	cmd    int
	step   string // name#k
	action string
}

func (f fault) String() string { return fmt.Sprintf("%s at %s of command %d", f.action, f.step, f.cmd) }

// kind is the fault without its counts.
func (f fault) kind() string { return f.action + " at " + strings.Split(f.step, "#")[0] }

// actions are the ways in which a step can fail.
func actions(step string) []string {
	name := strings.Split(step, "#")[0]
	switch name {
	case "mutectrl.start":
		return nil
	case "mutectrl.end":
		return []string{"crash"}
	case "mutectrl.commit":
		return []string{"fail", "crash"}
	case "smtp.connect":
		return []string{"drop", "421 try again", "crash"}
	case "smtp.ehlo":
		return []string{"250 no TLS", "421 no", "drop"}
	case "smtp.tls":
		return []string{"454 no", "other certificate", "drop"}
	case "smtp.mail":
		return []string{"450 try again", "550 no"}
	case "smtp.rcpt":
		return []string{"450 try again", "550 no", final, "drop"}
	case "smtp.data":
		return []string{"451 try again", "554 no"}
	case "smtp.body":
		return []string{"drop", "451 try again", "552 no", final, "crash"}
	case "smtp.accepted":
		return []string{"drop", "crash", "451 lost", "550 lost"}
	case "smtp.quit":
		return []string{"drop", "421 bye", "550 bye"}
	case "http.list", "http.message":
		return []string{"drop", "500", "rubbish", "error", "crash", "replay"}
	case "http.keys":
		return []string{"drop", "500", "rubbish", "error", "crash"}
	}
	if strings.HasPrefix(name, "mute") {
		return []string{"fail", "kill", "crash"}
	}
	panic(step)
}

const final = "554 client: final serviceguard error"

// scenario is a command to be disturbed and what follows it.
type scenario struct {
	name string
	home *home
	// sends tells that messages are sent.
	sends bool
	// pairs tells that pairs of faults are tried in the quick tier.
	pairs bool
	// begin is done before the first command.
	begin func(h *hist)
	// run runs command n; n = 0 is the one that is disturbed, the others
	// are retries. It tells whether it succeeded.
	run func(h *hist, n int) (bool, error)
	// arrive is done between the disturbed command and the retries.
	arrive func(h *hist)
	// verify decides after the retries.
	verify func(h *hist) error
}

const retries = 5 // commands run at most

// execute runs a history and returns the steps of each command.
func (s *scenario) execute(faults []fault) (steps [][]string, err error) {
	h := newHist(s, faults)
	defer h.close()
	for n := 0; n < retries; n++ {
		h.cmd = n
		ok, err := s.run(h, n)
		// a loop ends while other things happen
		var now, ends []string
		for _, st := range h.steps {
			if strings.HasPrefix(st, "mutecrypt-loop.end") {
				ends = append(ends, st)
			} else {
				now = append(now, st)
			}
		}
		steps = append(steps, append(now, ends...))
		h.steps, h.count = nil, map[string]int{}
		if err != nil {
			return steps, err
		}
		if n == 0 && s.arrive != nil {
			s.arrive(h)
		}
		if n > 0 && ok && !h.pending() {
			break
		}
		if n == retries-1 && len(faults) > 0 {
			return steps, h.bad("stuck", "the retries do not succeed: %s", h.last)
		}
		h.advance(3601)
	}
	h.cmd = -1
	if os.Getenv("VK_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, s.name, faults, steps, h.last)
	}
	if err = s.verify(h); err == nil && len(h.strange) > 0 {
		err = h.bad("strange", "%q", h.strange)
	}
	return steps, err
}

// explore tries all sequences of up to depth faults.
func (s *scenario) explore(depth int) {
	var steps [][]string
	if !r.Case(s.name, func() (err error) { steps, err = s.execute(nil); return }) {
		return
	}
	r.Eval(s.name)
	r.Trace()
	n := 0
	for _, f := range s.faults(steps, 0, -1, false) {
		n++
		if !vk.Mine(n) {
			continue
		}
		f := f
		s.try([]fault{f}, depth)
		if r.Expired() {
			return
		}
	}
}

// faults lists the faults of command cmd after position from; of second
// faults the quick tier tries two per step.
func (s *scenario) faults(steps [][]string, cmd, from int, second bool) (l []fault) {
	if cmd >= len(steps) {
		return nil
	}
	for i, st := range steps[cmd] {
		if i <= from {
			continue
		}
		as := actions(st)
		if second && len(as) > 2 && !r.Thorough() {
			as = []string{as[0], as[len(as)-1]}
		}
		for _, a := range as {
			l = append(l, fault{cmd, st, a})
		}
	}
	return l
}

func (s *scenario) try(fs []fault, depth int) {
	var steps [][]string
	d := s.name
	for _, f := range fs {
		d += ", " + f.String()
	}
	r.Eval(d)
	r.Trace()
	r.Outcome(s.name + ": " + fs[len(fs)-1].kind())
	ok := r.Case(d, func() (err error) { steps, err = s.execute(fs); return })
	if !ok || len(fs) >= depth || r.Expired() {
		return
	}
	// the second fault hits any later step
	last := fs[len(fs)-1]
	var next []fault
	at := len(steps[last.cmd]) // the step may not come again
	for i, st := range steps[last.cmd] {
		if st == last.step {
			at = i
		}
	}
	next = append(next, s.faults(steps, last.cmd, at, true)...)
	for c := last.cmd + 1; c < len(steps) && c <= last.cmd+1; c++ {
		next = append(next, s.faults(steps, c, -1, true)...)
	}
	for _, f := range next {
		s.try(append(append([]fault{}, fs...), f), depth)
		if r.Expired() {
			return
		}
	}
}

func sorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

func main() {
	r = vk.Start("C25")
	r.Fork()
	start()
	defer os.RemoveAll(dir)
	l := scenarios()
	for _, s := range l {
		s.explore(1)
	}
	for _, s := range l {
		if r.Thorough() || s.pairs {
			s.explore(2)
		}
	}
	if r.Expired() {
		r.Cap("deadline")
	}
	r.Done()
}
