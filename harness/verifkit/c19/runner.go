package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mutecomm/mute/serviceguard/client"
	vk "github.com/mutecomm/mute/verifkit"
)

// The background runner: sequences of starting and stopping it, going offline
// and online and setting the target; afterwards it must or must not fill the
// wallet. Every sequence runs in a process of its own; they mostly sleep.

const ops = "RSFNT" // Runner, StopRunner, GoOffline, GoOnline, SetTarget

// limit is how long something that must happen may take; nothing depends on
// how fast it is otherwise.
const limit = 60 * time.Second

func within(what string, f func()) {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(limit):
		end(what + " does not return")
	}
}

func end(s string) {
	fmt.Println("BAD " + s)
	os.Exit(0)
}

// counting counts the uses of the store.
type counting struct {
	client.WalletStore
	n int64
}

func (c *counting) ExpireUnusable() bool {
	atomic.AddInt64(&c.n, 1)
	return c.WalletStore.ExpireUnusable()
}

func runner(seq string) {
	w := newWorld(plain)
	p := w.start(nil)
	cs := &counting{WalletStore: p.st.Storage}
	c := newClient(w, cs)
	w.proc.c = c
	c.GoOnline()
	running, online, target := false, true, false
	set := func() {
		c.SetTarget(map[[32]byte]client.Target{*alice.Pub: {Usage: usage, LowWaterMark: 2, HighWaterMark: 2}})
		target = true
	}
	for _, o := range seq {
		switch o {
		case 'R':
			within("Runner", c.Runner)
			running = true
		case 'S':
			within("StopRunner", c.StopRunner)
			running = false
		case 'F':
			within("GoOffline", c.GoOffline)
			running, online = false, false
		case 'N':
			within("GoOnline", c.GoOnline)
			online = true
		case 'T':
			within("SetTarget", set)
		case '.':
			time.Sleep(4 * time.Second) // lets the runner come to rest
		}
	}
	if !target {
		within("SetTarget", set)
	}
	if !online {
		within("GoOnline", c.GoOnline)
	}
	for t := time.Now(); running; time.Sleep(50 * time.Millisecond) {
		if p.st.Storage.GetBalance(usage, alice.Pub) >= 2 {
			break
		}
		if time.Since(t) > limit {
			end(fmt.Sprintf("the wallet is not filled (%v)", c.LastError))
		}
	}
	if !running {
		// a runner that has not been stopped never rests for so long
		for t := time.Now(); ; {
			n := atomic.LoadInt64(&cs.n)
			time.Sleep(7 * time.Second)
			if atomic.LoadInt64(&cs.n) == n {
				break
			}
			if time.Since(t) > limit {
				end("the runner does not stop")
			}
		}
	} else if n := w.issued; n != 2 {
		end(fmt.Sprintf("%d tokens fetched instead of 2", n))
	}
	fmt.Println("OK")
}

// startRunners starts this process' share of the sequences.
func startRunners() (wait func()) {
	type job struct {
		seq string
		out chan error
	}
	var seqs []string
	depth := r.Pick(2, 3)
	for n := 1; n <= depth; n++ {
		vk.Sequences(len(ops), n, func(q []int) {
			s := ""
			for _, o := range q {
				s += string(ops[o])
			}
			seqs = append(seqs, s)
		})
	}
	seqs = append(seqs, "R.S.R", "R.F.NR", "F.NR", "S.R", "R.R.S", "R.SR", "R.FNR", "TR.S.R", "RSRS.R")
	var l []string
	for i, s := range seqs {
		if vk.Mine(i) {
			l = append(l, s)
		}
	}
	var bad int32
	slots := make(chan bool, 16)
	first := make([]error, len(l))
	var wg sync.WaitGroup
	for i, s := range l {
		i, s := i, s
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- true
			if atomic.LoadInt32(&bad) < 2 { // each takes its time to be sure
				if first[i] = runSeq(s); first[i] != nil {
					if again := runSeq(s); again == nil {
						r.Note("runner "+s+" unstable", first[i].Error())
						first[i] = nil
					} else {
						atomic.AddInt32(&bad, 1)
					}
				}
			}
			<-slots
		}()
	}
	return func() {
		wg.Wait()
		for i, s := range l {
			err := first[i]
			r.Trace()
			do("runner "+s, func() error { return err })
		}
	}
}

// runSeq runs a sequence in a process of its own.
func runSeq(s string) error {
	var out, errs bytes.Buffer
	c := exec.Command(os.Args[0], "runner", s)
	c.Stdout, c.Stderr = &out, &errs
	err := c.Run()
	switch o := out.String(); {
	case err != nil:
		e := errs.String()
		if len(e) > 300 {
			e = e[:300]
		}
		return vk.Badf("runner: the process dies", "%s", e)
	case strings.HasPrefix(o, "OK"):
		return nil
	default:
		o = strings.TrimPrefix(strings.TrimSpace(o), "BAD ")
		return vk.Badf("runner: "+strings.Split(o, " (")[0], "%s", o)
	}
}
