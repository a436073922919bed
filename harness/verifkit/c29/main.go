// c29 explores conversations and, from every reached state, how long copies of
// the parties' key stores taken there stay of use: after a bounded number of
// messages in both directions the keys must have been renewed.
package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/msg"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/world"
)

type mail struct {
	from int
	enc  []byte
	text string
	open bool
}

type node struct {
	p     [2]*world.Party
	mails []*mail
	hist  []string
}

func (n *node) clone() *node {
	c := &node{hist: append([]string(nil), n.hist...)}
	for i, p := range n.p {
		c.p[i] = p.Clone()
	}
	for _, m := range n.mails {
		x := *m
		c.mails = append(c.mails, &x)
	}
	return c
}

func (n *node) key() string {
	var b strings.Builder
	for _, p := range n.p {
		fmt.Fprintf(&b, "%s\n--%d\n", p.Store.Dump(), p.Rand.N)
	}
	var ms []string
	for _, m := range n.mails {
		h := cipher.SHA256(m.enc)
		ms = append(ms, fmt.Sprintf("%d:%v:%x", m.from, m.open, h[:8]))
	}
	sort.Strings(ms)
	b.WriteString(strings.Join(ms, " "))
	return b.String()
}

type config struct {
	name  string
	swap  bool
	keys  uint64
	sends int
	modes []int // 0 plain, 1 starting a renewal, 2 reset
}

func start(c config) (*node, error) {
	names := []string{"alice@mute.berlin", "bob@mute.berlin"}
	if c.swap {
		names[0], names[1] = names[1], names[0]
	}
	n := &node{}
	for i, s := range names {
		p, err := world.NewParty(s, "renewal "+c.name)
		if err != nil {
			return nil, err
		}
		n.p[i] = p
	}
	return n, world.Meet(n.p[0], n.p[1])
}

func (n *node) send(from, mode int, keys uint64) error {
	text := fmt.Sprintf("message %d from %d", len(n.mails), from)
	status, ct := msg.StatusCode(msg.StatusOK), []byte(text)
	if mode == 2 {
		status, ct, text = msg.StatusReset, nil, ""
	}
	enc, _, err := n.p[from].Send(n.p[1-from], ct, false, mode == 1, keys, status)
	if err != nil {
		return vk.Badf("send", "sending failed: %v", err)
	}
	n.mails = append(n.mails, &mail{from: from, enc: enc, text: text})
	n.hist = append(n.hist, fmt.Sprintf("%d sends%s", from, []string{"", " and renews", " a reset"}[mode]))
	return nil
}

func (n *node) open(i int, keys uint64) error {
	m := n.mails[i]
	n.hist = append(n.hist, fmt.Sprintf("#%d arrives", i))
	o, err := n.p[1-m.from].Open(m.enc, keys)
	if err != nil {
		return vk.Badf("open", "message %d does not open: %v", i, err)
	}
	if !bytes.Equal(o.Content, []byte(m.text)) {
		return vk.Badf("content", "message %d opens to %q", i, o.Content)
	}
	m.open = true
	return nil
}

// exchanges after which the keys known before must have been replaced: two to
// start it and to answer, two more if a renewal was under way already.
const rounds = 6

// plan is what happens after the key stores were copied.
type plan struct {
	first   int // who writes first
	pending int // mail under way: 0 arrives, 1 arrives in reverse, 2 is lost, 3 arrives after the first exchange
	renew   [2]bool
}

func (p plan) String() string {
	return fmt.Sprintf("%d writes first, mail under way %s, renewing: %v", p.first,
		[]string{"arrives", "arrives in reverse order", "is lost", "arrives after the first exchange"}[p.pending], p.renew)
}

type checker struct {
	r *vk.R
	c config
}

func (k *checker) deliver(n *node, mode int) error {
	if mode == 2 {
		return nil
	}
	var idx []int
	for i, m := range n.mails {
		if !m.open {
			idx = append(idx, i)
		}
	}
	for j := range idx {
		i := idx[j]
		if mode == 1 {
			i = idx[len(idx)-1-j]
		}
		if err := n.open(i, k.c.keys); err != nil {
			return err
		}
	}
	return nil
}

// run carries on a conversation from n, whose key stores have been copied.
func (k *checker) run(n *node, pl plan) error {
	thief := n.clone()
	for _, p := range thief.p {
		p.Rand.Seed += " of the thief" // he does not know what is drawn later
	}
	var old []int
	for i, m := range n.mails {
		if !m.open {
			old = append(old, i)
		}
	}
	if pl.pending < 3 {
		if err := k.deliver(n, pl.pending); err != nil {
			return err
		}
	}
	base := len(n.mails)
	last := [2]int{}
	for round := 0; round < rounds; round++ {
		for _, from := range []int{pl.first, 1 - pl.first} {
			mode := 0
			if pl.renew[from] {
				mode = 1
			}
			if err := n.send(from, mode, k.c.keys); err != nil {
				return err
			}
			last[from] = len(n.mails) - 1
			if err := n.open(last[from], k.c.keys); err != nil {
				return err
			}
			k.r.Trans()
		}
		if round == 0 && pl.pending == 3 {
			for _, i := range old {
				if err := n.open(i, k.c.keys); err != nil {
					return err
				}
			}
		}
	}
	for from, i := range last {
		// the copy, given only the message, and given all that came before it
		alone := thief.p[1-from].Clone()
		if o, err := alone.Open(n.mails[i].enc, k.c.keys); err == nil {
			return vk.Badf("not-renewed", "after %d exchanges a copy of %d's key store from before still opens a message: %q", rounds, 1-from, o.Content)
		}
		all := thief.p[1-from].Clone()
		for j := range n.mails {
			if n.mails[j].from == from && (j >= base || !thief.mails[j].open) {
				o, err := all.Open(n.mails[j].enc, k.c.keys)
				if j == i && err == nil {
					return vk.Badf("not-renewed-all", "after %d exchanges a copy of %d's key store from before, given all messages, opens the last: %q", rounds, 1-from, o.Content)
				}
			}
		}
		// the sender's store holds no message of the other's either
		if o, err := n.p[from].Clone().Open(n.mails[i].enc, k.c.keys); err == nil {
			return vk.Badf("own", "the sender opens his own message: %q", o.Content)
		}
	}
	k.r.Outcome(pl.String())
	return nil
}

var plans []plan

func (k *checker) check(n *node) {
	for _, pl := range plans {
		pl := pl
		d := fmt.Sprintf("%s: %s; then %s", k.c.name, strings.Join(n.hist, ", "), pl)
		k.r.Case(d, func() error { return k.run(n.clone(), pl) })
		k.r.Eval(d)
		k.r.Trace()
	}
}

func (k *checker) explore() bool {
	root, err := start(k.c)
	if err != nil {
		k.r.Fail("setup", err.Error(), k.c.name)
		return false
	}
	seen := map[string]bool{root.key(): true}
	frontier := []*node{root}
	for len(frontier) > 0 {
		var mu sync.Mutex
		var next []*node
		k.r.Parallel(len(frontier), func(i int) {
			if k.r.Expired() {
				return
			}
			n := frontier[i]
			k.r.State(k.c.name + n.key())
			k.check(n)
			grow := func(f func(c *node) error) {
				c := n.clone()
				var e error
				if f(c) != nil {
					// lost mail and failures are the subject of C01
					return
				}
				_ = e
				k.r.Trans()
				key := c.key()
				mu.Lock()
				defer mu.Unlock()
				if !seen[key] {
					seen[key] = true
					next = append(next, c)
				}
			}
			if len(n.mails) < k.c.sends {
				for from := range n.p {
					for _, m := range k.c.modes {
						from, m := from, m
						grow(func(c *node) error { return c.send(from, m, k.c.keys) })
					}
				}
			}
			for i := range n.mails {
				if !n.mails[i].open {
					i := i
					grow(func(c *node) error { return c.open(i, k.c.keys) })
				}
			}
		})
		if k.r.Expired() {
			k.r.Cap("deadline")
			return false
		}
		frontier = next
	}
	return true
}

func main() {
	world.Init()
	r := vk.Start("C29")
	for first := 0; first < 2; first++ {
		for pending := 0; pending < 4; pending++ {
			for _, rn := range [][2]bool{{true, true}, {true, false}, {false, true}} {
				plans = append(plans, plan{first, pending, rn})
			}
		}
	}
	confs := []config{
		{"two renewing", false, 2, r.Pick(3, 4), []int{0, 1}},
		{"two renewing, names exchanged", true, 3, r.Pick(3, 4), []int{0, 1}},
		{"always renewing", false, 50, r.Pick(3, 5), []int{1}},
	}
	for _, c := range confs {
		t := time.Now()
		k := &checker{r, c}
		ok := k.explore()
		r.Note("run "+c.name, fmt.Sprintf("complete=%v %.1fs", ok, time.Since(t).Seconds()))
	}
	r.Done()
}
