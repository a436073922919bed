// c03 alters genuine messages in every byte and splices their packets.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/uid"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/world"
)

type genuine struct {
	name    string
	dec     []byte
	packets [][]byte
	to      *world.Party // state of the recipient before delivery
	from    *world.Party
	content []byte
	signed  bool
}

const keys = 4

func must(r *vk.R, err error) bool {
	if err != nil {
		r.Fail("setup:"+err.Error(), err.Error(), "honest exchange")
		return true
	}
	return false
}

// try delivers dec to a copy of p; it reports a violation if it is accepted.
func try(r *vk.R, p *world.Party, dec []byte, sig, desc string, orig *genuine) {
	r.Trans()
	r.Eval(desc)
	r.Case(desc, func() error {
		q := p.Clone()
		vk.GoRand.Use(&q.Rand)
		o, err := q.OpenRaw(q.Store, []*uid.Message{q.UID}, bytes.NewReader(dec), keys)
		if err == nil {
			return vk.Badf(sig, "%s: accepted as %q from %s (signature %q)", desc, o.Content, o.Sender, o.Sig)
		}
		if orig == nil {
			return nil
		}
		// the genuine message can still be opened afterwards
		o, err = q.OpenRaw(q.Store, []*uid.Message{q.UID}, bytes.NewReader(orig.dec), keys)
		if err != nil {
			return vk.Badf(sig+":spoils", "%s: afterwards the genuine message is refused: %v", desc, err)
		}
		if !bytes.Equal(o.Content, orig.content) {
			return vk.Badf(sig+":spoils", "%s: afterwards the genuine message has content %q", desc, o.Content)
		}
		return nil
	})
}

func main() {
	world.Init()
	r := vk.Start("C03")
	defer r.Done()
	mk := func(n string) *world.Party {
		p, err := world.NewParty(n, "c03")
		must(r, err)
		return p
	}
	a, b, c := mk("alice@mute.berlin"), mk("bob@mute.berlin"), mk("carol@mute.berlin")
	if r.Failures() > 0 || must(r, world.Meet(a, b, c)) {
		return
	}
	var gs []*genuine
	send := func(name string, from, to *world.Party, content string, signed, roll bool) *genuine {
		enc, _, err := from.Send(to, []byte(content), signed, roll, keys, msg.StatusOK)
		if must(r, err) {
			return nil
		}
		g := &genuine{name: name, dec: world.Decoded(enc), to: to.Clone(), from: from.Clone(), content: []byte(content), signed: signed}
		if g.packets, err = world.Packets(g.dec); must(r, err) {
			return nil
		}
		gs = append(gs, g)
		return g
	}
	open := func(g *genuine, p *world.Party) bool {
		q := p
		vk.GoRand.Use(&q.Rand)
		o, err := q.OpenRaw(q.Store, []*uid.Message{q.UID}, bytes.NewReader(g.dec), keys)
		if must(r, err) {
			return false
		}
		if !bytes.Equal(o.Content, g.content) {
			r.Fail("content", "honest message opened with other content", g.name)
		}
		return true
	}
	big := strings.Repeat("0123456789abcdef", 2000)
	m1 := send("first message", a, b, "first message of a conversation", false, false)
	m2 := send("first message, signed", a, b, "second message of a conversation", true, false)
	if r.Failures() > 0 || !open(m1, b) {
		return
	}
	m2.to = b.Clone()
	if !open(m2, b) {
		return
	}
	m3 := send("reply in a session", b, a, big, true, false)
	if m3 == nil || !open(m3, a) {
		return
	}
	m4 := send("message with renewal", a, b, "renewing", false, true)
	m5 := send("from another sender", c, b, "hello from carol", false, false)
	if r.Failures() > 0 {
		return
	}
	// all five as of now: what splices are made of; recipients of splices have
	// not opened m4 and m5
	bNow := b.Clone()

	// 1. every byte altered
	masks := []byte{0x01, 0x80}
	if r.Thorough() {
		masks = []byte{0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff}
	}
	for gi, g := range []*genuine{m1, m2, m3, m4} {
		g := g
		ok := r.Parallel(len(g.dec), func(i int) {
			ms := masks
			near := i < 73+7+40 || (i > 7270 && i < 7330) || i > len(g.dec)-160
			if near {
				ms = []byte{0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff, 0x03, 0x18}
			} else if gi > 1 && !r.Thorough() {
				ms = masks[:1]
			}
			for _, m := range ms {
				if i == 72 && m == 0x80 {
					continue // the bit of a public key that X25519 ignores
				}
				alt := append([]byte(nil), g.dec...)
				alt[i] ^= m
				var orig *genuine
				if near {
					orig = g
				}
				try(r, g.to, alt, "altered", fmt.Sprintf("%s: byte %d xor %#x", g.name, i, m), orig)
			}
		})
		if !ok {
			r.Cap("alterations of " + g.name)
		}
		r.Outcome("altered: " + g.name)
		r.State(g.name)
	}
	r.Sample("%s (%d bytes, packets of %d %d %d %d %d %d bytes): every byte altered", m1.name, len(m1.dec),
		len(m1.packets[0]), len(m1.packets[1]), len(m1.packets[2]), len(m1.packets[3]), len(m1.packets[4]), len(m1.packets[5]))

	// 2. every truncation (step 1 near the packet bounds and at the end)
	for _, g := range []*genuine{m1, m3} {
		g := g
		r.Parallel(len(g.dec), func(i int) {
			if i > 200 && i < 7200 && i%17 != 0 || i > 7400 && i < len(g.dec)-400 && i%29 != 0 {
				return
			}
			try(r, g.to, g.dec[:i], "truncated", fmt.Sprintf("%s: first %d bytes", g.name, i), nil)
		})
	}

	// 3. splices: each of the six packets from any of the messages to b
	src := []*genuine{m1, m2, m4, m5, m3}
	n := 1
	for i := 0; i < 6; i++ {
		n *= len(src)
	}
	r.Parallel(n, func(x int) {
		var ps, fix [][]byte
		same := true
		name := "splice of"
		y := x
		for s := 0; s < 6; s++ {
			k := y % len(src)
			y /= len(src)
			if k != x%len(src) {
				same = false
			}
			ps = append(ps, src[k].packets[s])
			fix = append(fix, src[k].packets[s])
			name += fmt.Sprintf(" %d", k)
		}
		if same {
			return
		}
		// to b before he saw anything but the session start, and to b now
		try(r, bNow, world.Join(ps), "splice", name, nil)
		try(r, m1.to, world.Join(fix), "splice", name+" (fresh)", nil)
	})
	r.Sample("6 packets each taken from one of %d messages: %d splices", len(src), n-len(src))

	// 4. packets of one message reordered, repeated and dropped, with the
	// packet numbers as they were and corrected
	for _, g := range []*genuine{m2, m4} {
		g := g
		n := 1
		for i := 0; i < 6; i++ {
			n *= 6
		}
		total := n + 6 + 36
		r.Parallel(total, func(x int) {
			var idx []int
			switch {
			case x < n:
				y := x
				id := true
				for s := 0; s < 6; s++ {
					idx = append(idx, y%6)
					id = id && y%6 == s
					y /= 6
				}
				if id {
					return
				}
			case x < n+6:
				for s := 0; s < 6; s++ {
					if s != x-n {
						idx = append(idx, s)
					}
				}
			default:
				// nothing after the last packet: the stream ends there
				pos, what := (x-n-6)/6, (x-n-6)%6
				for s := 0; s < 6; s++ {
					if s == pos {
						idx = append(idx, what)
					}
					idx = append(idx, s)
				}
			}
			var ps, fix [][]byte
			for pos, i := range idx {
				ps = append(ps, g.packets[i])
				fix = append(fix, world.WithCount(g.packets[i], pos))
			}
			to := g.to
			if g == m2 {
				to = m2.to
			}
			if !bytes.HasPrefix(world.Join(ps), g.dec) {
				try(r, to, world.Join(ps), "reordered", fmt.Sprintf("%s: packets %v", g.name, idx), nil)
			}
			if bytes.HasPrefix(world.Join(fix), g.dec) {
				return
			}
			try(r, to, world.Join(fix), "reordered", fmt.Sprintf("%s: packets %v renumbered", g.name, idx), nil)
		})
	}
	r.Sample("packet sequences over the 6 packets of one message, of length 5, 6 and 7, with and without renumbering")

	// 5. genuine messages given to others
	for _, g := range gs {
		for _, p := range []*world.Party{a, b, c, m1.to, m1.from, m5.from, g.from} {
			if p.Name == g.to.Name {
				continue
			}
			try(r, p, g.dec, "misdirected", fmt.Sprintf("%s given to %s", g.name, p.Name), nil)
		}
	}

	// 6. the sender's header changed in single fields by someone who can (the
	// sender), so that header and body no longer belong together
	edits := map[string]func(h map[string]interface{}){
		"message count":       func(h map[string]interface{}) { h["SenderMessageCount"] = 7 },
		"message count 3":     func(h map[string]interface{}) { h["SenderMessageCount"] = 3 },
		"huge message count":  func(h map[string]interface{}) { h["SenderMessageCount"] = uint64(1<<64 - 1) },
		"large message count": func(h map[string]interface{}) { h["SenderMessageCount"] = 5000 },
		"session key":         func(h map[string]interface{}) { h["SenderSessionPub"] = world.KEMap(c.KI) },
		"sender key":          func(h map[string]interface{}) { h["SenderIdentityPub"] = world.KEMap(c.UID.PubKey()) },
		"recipient temp":      func(h map[string]interface{}) { h["RecipientTempHash"] = c.KI.HASH },
		"own identity as session key": func(h map[string]interface{}) {
			h["SenderSessionPub"] = world.KEMap(b.UID.PubKey())
		},
		"recipient's published key as session key": func(h map[string]interface{}) {
			h["SenderSessionPub"] = world.KEMap(b.KI)
		},
		"bad key hash": func(h map[string]interface{}) {
			m := world.KEMap(c.KI)
			m["HASH"] = b.KI.HASH
			h["SenderSessionPub"] = m
		},
		"empty identity message":  func(h map[string]interface{}) { h["SenderUID"] = "" },
		"broken identity message": func(h map[string]interface{}) { h["SenderUID"] = "{}" },
	}
	for name, e := range edits {
		for _, g := range []*genuine{m1, m2, m4} {
			rnd := &vk.CtrRand{Seed: "forge" + name}
			dec, err := world.ForgeHeader(g.dec, b, rnd, e)
			if must(r, err) {
				return
			}
			try(r, g.to, dec, "header:"+strings.Replace(name, " ", "-", -1), g.name+" with changed "+name, nil)
		}
	}
	r.Sample("headers resealed with one field changed: %d fields", len(edits))
	r.Trace()
}
