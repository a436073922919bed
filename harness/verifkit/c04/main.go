// c04 encrypts contents of every length.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/world"
)

const keys = 3

func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*31 + i>>8 + n)
	}
	return b
}

func main() {
	world.Init()
	r := vk.Start("C04")
	defer r.Done()
	setup := func(err error) bool {
		if err != nil {
			r.Fail("setup", err.Error(), "honest exchange")
		}
		return err != nil
	}
	mk := func(n string) *world.Party {
		p, err := world.NewParty(n, "c04")
		setup(err)
		return p
	}
	a, b := mk("alice@mute.berlin"), mk("bob@mute.berlin")
	if r.Failures() > 0 || setup(world.Meet(a, b)) {
		return
	}
	// an established session in both directions
	a2, b2 := a.Clone(), b.Clone()
	for i := 0; i < 2; i++ {
		enc, _, err := a2.Send(b2, []byte("x"), false, false, keys, 0)
		if setup(err) {
			return
		}
		if _, err := b2.Open(enc, keys); setup(err) {
			return
		}
		enc, _, err = b2.Send(a2, []byte("x"), false, false, keys, 0)
		if setup(err) {
			return
		}
		if _, err := a2.Open(enc, keys); setup(err) {
			return
		}
	}
	check := func(from, to *world.Party, n int, signed, roll bool, what string) {
		desc := fmt.Sprintf("%s, content of %d bytes, signed %v", what, n, signed)
		r.Eval(desc)
		r.Trans()
		r.Case(desc, func() error {
			p, q := from.Clone(), to.Clone()
			ct := pattern(n)
			enc, _, err := p.Send(q, ct, signed, roll, keys, msg.StatusOK)
			if err != nil {
				return vk.Badf("refused", "%s: %v", desc, err)
			}
			if len(enc) != msg.EncodedMsgSize {
				return vk.Badf("size", "%s: encoded in %d bytes instead of %d", desc, len(enc), msg.EncodedMsgSize)
			}
			o, err := q.Open(enc, keys)
			if err != nil {
				return vk.Badf("open", "%s: %v", desc, err)
			}
			if !bytes.Equal(o.Content, ct) {
				return vk.Badf("content", "%s: opened %d bytes that differ", desc, len(o.Content))
			}
			return nil
		})
	}
	if msg.EncodedMsgSize != 65536 || msg.MaxContentLength != 41691 {
		// documented numbers: a change would split users into distinguishable groups
		r.Fail("documented-size", fmt.Sprintf("message size %d, maximal content %d", msg.EncodedMsgSize, msg.MaxContentLength), "constants")
	}
	max := 41691
	step := r.Pick(3, 1)
	all := func(from, to *world.Party, what string, step int, roll bool) {
		r.State(what)
		if !r.Parallel(max+1, func(n int) {
			if n > 700 && n < max-700 && n%step != 0 && n%4096 > 20 && n%4096 < 4076 {
				return
			}
			for _, s := range []bool{false, true} {
				check(from, to, n, s, roll, what)
			}
		}) {
			r.Cap(what)
		}
	}
	all(a, b, "first message", step, false)
	all(a2, b2, "established session", step*r.Pick(3, 1), false)
	all(a2, b2, "renewal", 1024, true)
	all(b2, a2, "reply", 1024, false)
	r.Sample("contents of 0..%d bytes in steps of %d, every length near the ends and page bounds, signed and not, as first message and in a session", max, step)

	// too long contents
	over := []int{max + 1, max + 2, 49152, 65535, 65536, 65537, 1 << 17, 1 << 20, 1<<16 + max}
	for n := max + 1; n < max+600; n++ {
		over = append(over, n)
	}
	for n := 65536 - 100; n < 65536+100; n++ {
		over = append(over, n)
	}
	r.Parallel(len(over)*2, func(i int) {
		n, signed := over[i/2], i%2 == 1
		desc := fmt.Sprintf("content of %d bytes, signed %v", n, signed)
		r.Eval(desc)
		r.Case(desc, func() error {
			p, q := a.Clone(), b.Clone()
			enc, _, err := p.Send(q, pattern(n), signed, false, keys, msg.StatusOK)
			if err == nil {
				return vk.Badf("oversize", "%s: accepted, encoded in %d bytes", desc, len(enc))
			}
			if len(enc) != 0 {
				return vk.Badf("oversize-output", "%s: refused, but %d bytes were written", desc, len(enc))
			}
			return nil
		})
		r.Outcome("refused")
	})

	// status messages
	for _, st := range []msg.StatusCode{msg.StatusOK, msg.StatusReset, msg.StatusError} {
		for _, est := range []bool{false, true} {
			for _, signed := range []bool{false, true} {
				desc := fmt.Sprintf("status %d, session %v, signed %v", st, est, signed)
				r.Eval(desc)
				r.Case(desc, func() error {
					p, q := a.Clone(), b.Clone()
					if est {
						p, q = a2.Clone(), b2.Clone()
					}
					enc, _, err := p.Send(q, nil, signed, false, keys, st)
					if err != nil {
						return vk.Badf("refused", "%s: %v", desc, err)
					}
					if len(enc) != msg.EncodedMsgSize {
						return vk.Badf("size", "%s: encoded in %d bytes", desc, len(enc))
					}
					o, err := q.Open(enc, keys)
					if err != nil {
						return vk.Badf("open", "%s: %v", desc, err)
					}
					if len(o.Content) != 0 {
						return vk.Badf("content", "%s: content %q", desc, o.Content)
					}
					return nil
				})
			}
		}
	}

	// header contents of every size: names, nym addresses, counters
	long := func(n int) string { // an identity of n characters
		l := n - len("@mute.berlin")
		if l > 64 {
			l = 64
		}
		lp := strings.Repeat("abcdefghik", 30)[:l]
		return lp + "@" + strings.Repeat("x", n-l-len("@mute.berlin")) + "mute.berlin"
	}
	var lens []int
	for n := 15; n <= 254; n++ {
		lens = append(lens, n)
	}
	r.Parallel(len(lens), func(i int) {
		name := long(lens[i])
		desc := "sender " + name
		r.Eval(desc)
		r.Case(desc, func() error {
			p, err := world.NewParty(name, "c04l")
			if err != nil {
				return vk.Badf("setup-name", "%v", err)
			}
			q := b.Clone()
			p.Store.AddPub(q.Name, q.KI)
			enc, _, err := p.Send(q, []byte("x"), false, false, keys, 0)
			if err != nil {
				return vk.Badf("refused-name", "%s: %v", desc, err)
			}
			if len(enc) != msg.EncodedMsgSize {
				return vk.Badf("size", "%s: encoded in %d bytes", desc, len(enc))
			}
			o, err := q.Open(enc, keys)
			if err != nil || o.Sender != name {
				return vk.Badf("open", "%s: %v", desc, err)
			}
			return nil
		})
	})
	nyms := []int{}
	for n := 0; n <= 1568; n += r.Pick(7, 1) {
		nyms = append(nyms, n)
	}
	nyms = append(nyms, 1, 2, 3, 1566, 1567, 1568, 1569, 1570, 1600, 2000, 5000)
	r.Parallel(len(nyms), func(i int) {
		n := nyms[i]
		desc := fmt.Sprintf("nym address of %d characters", n)
		r.Eval(desc)
		r.Case(desc, func() error {
			p, q := a.Clone(), b.Clone()
			vk.GoRand.Use(&p.Rand)
			var out bytes.Buffer
			_, err := msg.Encrypt(&msg.EncryptArgs{Writer: &out, From: p.UID, To: q.UID,
				NymAddress: strings.Repeat("aB+/", 2000)[:n], SenderLastKeychainHash: hashchain.TestEntry,
				Reader: bytes.NewReader([]byte("x")), NumOfKeys: keys, Rand: &p.Rand, KeyStore: p.Store})
			if n > 1568 {
				if err == nil {
					return vk.Badf("oversize-nym", "%s: accepted", desc)
				}
				return nil
			}
			if err != nil {
				return vk.Badf("refused-nym", "%s: %v", desc, err)
			}
			if out.Len() != msg.EncodedMsgSize {
				return vk.Badf("size", "%s: encoded in %d bytes", desc, out.Len())
			}
			if _, err := q.Open(out.Bytes(), keys); err != nil {
				return vk.Badf("open", "%s: %v", desc, err)
			}
			return nil
		})
	})
	// session and message counters of every number of digits
	nk := r.Pick(120, 1010)
	a3, b3 := a.Clone(), b.Clone()
	for i := 0; i < 2; i++ {
		for _, d := range [][2]*world.Party{{a3, b3}, {b3, a3}} {
			enc, _, err := d[0].Send(d[1], []byte("x"), false, false, uint64(nk), 0)
			if setup(err) {
				return
			}
			if _, err := d[1].Open(enc, uint64(nk)); setup(err) {
				return
			}
		}
	}
	stateKey := session.CalcStateKey(a.UID.PubKey().PublicKey32(), b.UID.PubKey().PublicKey32())
	var counts, mcounts []uint64
	for c := uint64(1); ; c *= 10 {
		counts = append(counts, c-1, c)
		if c > 1<<63/5 {
			break
		}
	}
	counts = append(counts, 5, 95, 1<<63, 1<<64-1)
	for _, c := range []uint64{0, 1, 5, 9, 10, 11, 50, 98, 99, 100, 101, 500, 998, 999, 1000, 1001} {
		if c < uint64(nk) {
			mcounts = append(mcounts, c)
		}
	}
	r.Parallel(len(counts)*len(mcounts)*2, func(i int) {
		sc, mc, roll := counts[i/2/len(mcounts)], mcounts[i/2%len(mcounts)], i%2 == 1
		desc := fmt.Sprintf("session counter %d, message counter %d, renewal %v", sc, mc, roll)
		r.Eval(desc)
		r.Case(desc, func() error {
			p, q := a3.Clone(), b3.Clone()
			st, err := p.Store.GetSessionState(stateKey)
			if err != nil || st == nil {
				return vk.Badf("setup", "no session state")
			}
			st.SenderSessionCount, st.SenderMessageCount = sc, mc
			if err := p.Store.SetSessionState(stateKey, st); err != nil {
				return err
			}
			enc, _, err := p.Send(q, []byte("x"), false, roll, uint64(nk), 0)
			if err != nil {
				return vk.Badf("refused-counter", "%s: %v", desc, err)
			}
			if len(enc) != msg.EncodedMsgSize {
				return vk.Badf("size", "%s: encoded in %d bytes", desc, len(enc))
			}
			if _, err := q.Open(enc, uint64(nk)); err != nil {
				return vk.Badf("open", "%s: %v", desc, err)
			}
			return nil
		})
	})
	// updated identities
	r.Case("updated identity", func() error {
		p, q := a.Clone(), b.Clone()
		vk.GoRand.Use(&p.Rand)
		u := p.UID
		for i := 0; i < 12; i++ {
			n, err := u.Update(&p.Rand)
			if err != nil {
				return vk.Badf("setup-update", "%v", err)
			}
			u = n
			p.UID = u
			enc, _, err := p.Send(q, []byte("x"), true, false, keys, msg.StatusReset)
			if err != nil {
				return vk.Badf("refused-update", "identity updated %d times: %v", i+1, err)
			}
			if len(enc) != msg.EncodedMsgSize {
				return vk.Badf("size", "identity updated %d times: encoded in %d bytes", i+1, len(enc))
			}
		}
		return nil
	})
	_ = uid.Strict
	r.Trace()
}
