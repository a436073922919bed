// c01 explores conversations (C01) and, built as c02, every redelivery and key
// store snapshot of them (C02).
package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/msg/session/memstore"
	"github.com/mutecomm/mute/uid"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/world"
)

type mail struct {
	from, to int
	enc      []byte
	content  []byte
	signed   bool
	key      string // message key used, as in the store
	no       int    // number within sender's messages
	rcptKey  string // hash of the recipient's session key in the header
}

// act is one step: a message sent, delivered, or delivered once more.
type act struct {
	kind     byte // 's', 'o', 'd'
	from, to int
	mode     int // of sending: 0 plain, 1 renew, 2 reset
	mail     int // index of the mail for 'o' and 'd'
}

func (a act) String() string {
	switch a.kind {
	case 's':
		return fmt.Sprintf("%d->%d%s", a.from, a.to, []string{"", "+renew", "+reset"}[a.mode])
	case 'o':
		return fmt.Sprintf("open#%d", a.mail)
	}
	return fmt.Sprintf("again#%d", a.mail)
}

type node struct {
	p      []*world.Party
	mails  []*mail // all sent
	opened []bool
	sent   []int
	dups   int
	hist   []act
}

func (n *node) clone() *node {
	c := &node{dups: n.dups}
	for _, p := range n.p {
		c.p = append(c.p, p.Clone())
	}
	c.sent = append([]int(nil), n.sent...)
	c.mails = append([]*mail(nil), n.mails...)
	c.opened = append([]bool(nil), n.opened...)
	c.hist = append([]act(nil), n.hist...)
	return c
}

func (n *node) key() string {
	var sb strings.Builder
	for _, p := range n.p {
		sb.WriteString(p.Store.Dump())
		fmt.Fprintf(&sb, "\n--%d\n", p.Rand.N)
	}
	m := make([]string, 0, len(n.mails))
	for i, x := range n.mails {
		h := cipher.SHA256(x.enc)
		m = append(m, fmt.Sprintf("%d.%d.%d:%v:%x", x.from, x.to, x.no, n.opened[i], h[:8]))
	}
	sort.Strings(m)
	fmt.Fprintf(&sb, "%d %s", n.dups, strings.Join(m, " "))
	return sb.String()
}

type config struct {
	parties  int
	numKeys  uint64
	maxSends int
	modes    []int // of sending
	swap     bool
	dups     int
	seed     string
}

func (c config) String() string {
	return fmt.Sprintf("parties=%d keys=%d sends=%d modes=%v swap=%v again=%d seed=%s", c.parties, c.numKeys, c.maxSends, c.modes, c.swap, c.dups, c.seed)
}

func start(c config) (*node, error) {
	names := []string{"alice@mute.berlin", "bob@mute.berlin", "carol@mute.one"}[:c.parties]
	if c.seed == "b" || c.seed == "c" { // of the same length
		names = []string{"alice@mute.one", "bobby@mute.one", "carol@mute.one"}[:c.parties]
	}
	if c.swap {
		names[0], names[1] = names[1], names[0]
	}
	n := &node{sent: make([]int, c.parties)}
	for _, name := range names {
		p, err := world.NewParty(name, c.seed)
		if err != nil {
			return nil, err
		}
		n.p = append(n.p, p)
	}
	return n, world.Meet(n.p...)
}

type checker struct {
	r    *vk.R
	c02  bool
	conf config
}

func content(no int, name string) ([]byte, bool) {
	c := []byte(fmt.Sprintf("message %d from %s with some text", no, name))
	if no%3 == 2 {
		c = []byte{}
	}
	return c, no%2 == 1
}

// stores used by a step; nil stands for the party's reference store.
func store(p *world.Party, alt session.Store) session.Store {
	if alt != nil {
		return alt
	}
	return p.Store
}

// step executes a on n in place, on the stores in alt if given.
func (k *checker) step(n *node, a act, alt []session.Store) error {
	n.hist = append(n.hist, a)
	var st session.Store
	if a.kind == 's' {
		p, q := n.p[a.from], n.p[a.to]
		vk.GoRand.Use(&p.Rand)
		if alt != nil {
			st = alt[a.from]
		}
		no := n.sent[a.from]
		ct, signed := content(no, p.Name)
		status := msg.StatusCode(msg.StatusOK)
		if a.mode == 2 {
			status, ct = msg.StatusReset, []byte{}
		}
		enc, nym, err := p.SendTo(store(p, st), q.UID, ct, signed, a.mode == 1, k.conf.numKeys, status)
		if err != nil {
			return vk.Badf("send-failed", "sending failed: %v", err)
		}
		if len(enc) != msg.EncodedMsgSize {
			return vk.Badf("size", "encoded message has %d bytes", len(enc))
		}
		if alt == nil {
			if nym != "nym of "+q.Name && nym != "nym:"+q.Name {
				return vk.Badf("nym", "message is to be delivered to %q", nym)
			}
			for _, m := range n.mails {
				if m.key == p.Store.Last {
					return vk.Badf("key-reuse", "two messages are encrypted with the same message key")
				}
			}
		}
		m := &mail{from: a.from, to: a.to, enc: enc, content: ct, signed: signed, key: p.Store.Last, no: no}
		if k.c02 {
			h, err := world.Header(world.Decoded(enc), q)
			if err != nil {
				return vk.Badf("header", "%v", err)
			}
			m.rcptKey, _ = h["RecipientTempHash"].(string)
			if m.rcptKey == "" {
				return vk.Badf("header", "the header names no key of the recipient")
			}
		}
		n.mails = append(n.mails, m)
		n.opened = append(n.opened, false)
		n.sent[a.from]++
		return nil
	}
	m := n.mails[a.mail]
	p, q := n.p[m.to], n.p[m.from]
	vk.GoRand.Use(&p.Rand)
	if alt != nil {
		st = alt[m.to]
	}
	// the recipient also owns a second identity, tried before or after
	ids := []*uid.Message{p.UID}
	if m.no%2 == 0 {
		ids = []*uid.Message{extra, p.UID}
	} else {
		ids = []*uid.Message{p.UID, extra}
	}
	o, err := p.OpenWith(store(p, st), ids, m.enc, k.conf.numKeys)
	if a.kind == 'd' {
		n.dups++
		if err == nil {
			return vk.Badf("opened-twice", "message was opened again: %q", o.Content)
		}
		return nil
	}
	if err != nil {
		return vk.Badf("open-failed:"+errClass(err), "opening a delivered message failed: %v", err)
	}
	if !bytes.Equal(o.Content, m.content) {
		return vk.Badf("content", "opened content %q differs from sent %q", o.Content, m.content)
	}
	if o.Sender != q.Name {
		return vk.Badf("sender", "reported sender %q instead of %q", o.Sender, q.Name)
	}
	if (o.Sig != "") != m.signed {
		return vk.Badf("signed", "message signed: %v, reported: %q", m.signed, o.Sig)
	}
	if m.signed {
		if err := world.VerifySig(q, o); err != nil {
			return vk.Badf("signature", "%v", err)
		}
	}
	n.opened[a.mail] = true
	return nil
}

var extra *uid.Message

func errClass(err error) string {
	s := err.Error()
	if i := strings.IndexAny(s, "0123456789("); i > 0 {
		s = s[:i]
	}
	return strings.Replace(strings.TrimSpace(s), " ", "_", -1)
}

// once checks the C02 oracle in state n.
func (k *checker) once(n *node) error {
	for i, m := range n.mails {
		if n.p[m.from].Store.HasMessageKey(m.key) {
			return vk.Badf("sender-keeps-key", "the sender's store still holds the key of sent message %d", i)
		}
		if err := k.derivable(n, n.p[m.from].Store, m); err != nil {
			return err
		}
		if !n.opened[i] {
			continue
		}
		rcpt := n.p[m.to].Clone()
		if rcpt.Store.HasMessageKey(m.key) {
			return vk.Badf("recipient-keeps-key", "the recipient's store still holds the key of opened message %d", i)
		}
		if rcpt.Store.HasPrivSessionKey(m.rcptKey) {
			return vk.Badf("session-key-kept", "the recipient's store still holds the private session key opened message %d was sent to", i)
		}
		if err := k.derivable(n, rcpt.Store, m); err != nil {
			return err
		}
		o, err := rcpt.Open(m.enc, k.conf.numKeys)
		if err == nil {
			return vk.Badf("opened-twice", "message %d was opened again: %q", i, o.Content)
		}
		if o, err := rcpt.Open(m.enc, k.conf.numKeys); err == nil {
			return vk.Badf("opened-thrice", "message %d was opened at the second redelivery: %q", i, o.Content)
		}
		if _, err := n.p[m.from].Clone().Open(m.enc, k.conf.numKeys); err == nil {
			return vk.Badf("sender-opens", "message %d was opened by its sender", i)
		}
		k.r.Eval(fmt.Sprint(k.conf, n.hist, i))
	}
	return nil
}

// derivable checks that no chain key in the store leads to the key of m.
func (k *checker) derivable(n *node, st *world.Store, m *mail) error {
	a, b := n.p[m.from].Name, n.p[m.to].Name
	if b < a {
		a, b = b, a
	}
	fix := cipher.SHA512([]byte(a + b))
	var pubs []string
	for _, i := range []int{m.from, m.to} {
		pubs = append(pubs, n.p[i].KI.HASH)
		pubs = append(pubs, n.p[i].Store.SessionPubs()...)
	}
	for _, ck := range st.ChainKeys() {
		chain, err := base64.Decode(ck)
		if err != nil {
			return vk.Badf("chain-key", "malformed chain key %q", ck)
		}
		for step := uint64(0); step < k.conf.numKeys+1; step++ {
			for _, ph := range pubs {
				raw, err := base64.Decode(ph)
				if err != nil {
					continue
				}
				buf := append([]byte("MESSAGE"), raw...)
				buf = append(buf, fix...)
				if base64.Encode(cipher.HMAC(chain, buf)) == m.key {
					return vk.Badf("derivable", "a kept chain key leads to the key of a used message of %s", n.p[m.from].Name)
				}
			}
			chain = cipher.HMAC(chain, []byte("CHAIN"))[:32]
		}
	}
	return nil
}

func (k *checker) acts(n *node) (as []act) {
	if len(n.mails) < k.conf.maxSends {
		for from := range n.p {
			for to := range n.p {
				if from == to {
					continue
				}
				for _, m := range k.conf.modes {
					as = append(as, act{kind: 's', from: from, to: to, mode: m})
				}
			}
		}
	}
	for i := range n.mails {
		if !n.opened[i] {
			as = append(as, act{kind: 'o', mail: i})
		} else if n.dups < k.conf.dups {
			as = append(as, act{kind: 'd', mail: i})
		}
	}
	return
}

// onMemstore replays a complete history on the repository's memory store.
func (k *checker) onMemstore(h []act) error {
	n, err := start(k.conf)
	if err != nil {
		return vk.Badf("setup", "%v", err)
	}
	var alt []session.Store
	for _, p := range n.p {
		ms := memstore.New()
		ms.AddPrivateKeyEntry(p.KI)
		for _, q := range n.p {
			if q != p {
				pub, err := uid.NewJSONKeyEntry(q.KI.JSON())
				if err != nil {
					return err
				}
				ms.AddPublicKeyEntry(q.Name, pub)
			}
		}
		alt = append(alt, ms)
	}
	for _, a := range h {
		if err := k.step(n, a, alt); err != nil {
			b := err.(*vk.Bad)
			return vk.Badf("memstore:"+b.Sig, "with the memory store: %s", b.Detail)
		}
	}
	return nil
}

func (k *checker) explore() bool {
	root, err := start(k.conf)
	if err != nil {
		k.r.Fail("setup", err.Error(), k.conf.String())
		return true
	}
	frontier := []*node{root}
	k.r.State(k.conf.String() + root.key())
	for len(frontier) > 0 {
		var next []*node
		var mu sync.Mutex
		if !k.r.Parallel(len(frontier), func(fi int) {
			n := frontier[fi]
			as := k.acts(n)
			for _, a := range as {
				a := a
				var c *node
				desc := fmt.Sprintf("%s: %v then %v", k.conf, n.hist, a)
				ok := k.r.Case(desc, func() error {
					c = n.clone()
					err := k.step(c, a, nil)
					if err == nil && k.c02 {
						err = k.once(c)
					}
					return err
				})
				k.r.Trans()
				if !ok {
					continue
				}
				if k.r.State(k.conf.String() + c.key()) {
					mu.Lock()
					next = append(next, c)
					mu.Unlock()
				} else {
					k.r.Trace() // a history that ends in a state already explored
				}
			}
			if len(as) == 0 {
				k.r.Trace()
				k.r.Sample("%s: %v", k.conf, n.hist)
				k.r.Outcome(fmt.Sprintf("complete conversations of %d messages", len(n.mails)))
				if !k.c02 {
					k.r.Case(fmt.Sprintf("%s: %v", k.conf, n.hist), func() error { return k.onMemstore(n.hist) })
					k.r.Trace()
				}
			}
		}) {
			return false
		}
		frontier = next
	}
	return true
}

// streams delivers long one-sided conversations with the default number of
// precomputed keys: in order, with overtaking messages at every place where
// new keys are computed, with late messages and with gaps.
func (k *checker) streams(total int) {
	n, err := start(k.conf)
	if err != nil {
		k.r.Fail("setup", err.Error(), k.conf.String())
		return
	}
	for i := 0; i < total; i++ {
		if err := k.step(n, act{kind: 's', from: 0, to: 1}, nil); err != nil {
			k.r.Fail("stream:send", err.Error(), fmt.Sprintf("message %d of a stream", i))
			return
		}
	}
	var orders [][]int
	var names []string
	add := func(name string, o []int) { orders = append(orders, o); names = append(names, name) }
	seq := func(from, to int) (o []int) {
		for i := from; i < to; i++ {
			o = append(o, i)
		}
		return
	}
	add("in order", seq(0, total))
	for _, b := range []int{0, 1, 48, 49, 50, 51, 98, 99, 100, 101, 149, 150} {
		if b+2 > total {
			continue
		}
		for _, l := range []int{1, 2, 10} { // b arrives after the l following ones
			if b+l+1 > total {
				continue
			}
			o := append(seq(0, b), seq(b+1, b+1+l)...)
			o = append(o, b)
			add(fmt.Sprintf("message %d overtaken by %d", b, l), append(o, seq(b+1+l, total)...))
		}
		o := append(seq(0, b), seq(b+1, total)...)
		add(fmt.Sprintf("message %d last", b), append(o, b))
	}
	for _, b := range []int{1, 20, 49, 50, 51, 80, 100} {
		for _, l := range []int{1, 2, 24, 25, 26, 48, 49} {
			if b+l < total {
				add(fmt.Sprintf("messages %d to %d lost", b, b+l-1), append(seq(0, b), seq(b+l, total)...))
			}
		}
	}
	if total > 400 { // gaps and overtaking are covered by the shorter stream
		orders, names = orders[:1], names[:1]
	}
	var rev []int
	for i := 49; i >= 0; i-- {
		rev = append(rev, i)
	}
	add("first 50 reversed", append(rev, seq(50, total)...))
	k.r.Parallel(len(orders), func(i int) {
		k.r.Case(fmt.Sprintf("stream of %d messages, %s", total, names[i]), func() error {
			c := n.clone()
			for _, m := range orders[i] {
				k.r.Trans()
				if err := k.step(c, act{kind: 'o', mail: m}, nil); err != nil {
					b := err.(*vk.Bad)
					return vk.Badf("stream:"+b.Sig, "%s, message %d: %s", names[i], m, b.Detail)
				}
				k.r.State(fmt.Sprint("stream", i, m))
			}
			k.r.Trace()
			return nil
		})
	})
}

func main() {
	world.Init()
	c02 := strings.HasSuffix(os.Args[0], "c02")
	id := "C01"
	if c02 {
		id = "C02"
	}
	r := vk.Start(id)
	x, err := world.NewParty("other@mute.berlin", "x")
	if err != nil {
		r.Fail("setup", err.Error(), "creating a user")
		r.Done()
		return
	}
	extra = x.UID
	confs := []config{
		{2, 2, 4, []int{0, 1, 2}, false, 0, "a"},
		{2, 2, 4, []int{0, 1}, true, 1, "b"},
		{3, 1, 4, []int{0, 1}, false, 0, "c"},
		{2, 1, 5, []int{0, 1}, false, 0, "d"},
		{2, 50, 4, []int{1}, true, 0, "e"},
		{2, 3, 6, []int{0}, false, 0, "f"},
		{2, 1, 6, []int{1}, true, 0, "g"},
		{2, 2, 6, []int{1}, false, 0, "h"},
	}
	if !c02 {
		confs = append(confs, config{2, 2, 6, []int{0, 1}, true, 0, "i"}, config{2, 2, 7, []int{1}, false, 0, "j"})
	}
	if !c02 {
		k := &checker{r, c02, config{2, 50, 0, nil, false, 0, "stream"}}
		k.streams(165)
		k.streams(r.Pick(460, 1100))
	}
	if r.Thorough() {
		confs = append(confs,
			config{3, 2, 5, []int{0, 1}, false, 0, "k"},
			config{2, 1, 7, []int{0, 1}, false, 0, "l"},
			config{2, 2, 6, []int{0, 1, 2}, true, 1, "m"},
			config{2, 2, 9, []int{1}, true, 0, "n"},
			config{2, 3, 9, []int{0}, false, 0, "o"})
	}
	for _, c := range confs {
		t := time.Now()
		k := &checker{r, c02, c}
		ok := k.explore()
		r.Note("run "+c.String(), fmt.Sprintf("complete=%v %.1fs", ok, time.Since(t).Seconds()))
	}
	r.Done()
}
