// C14: mix messages. Every size, setting and token is sealed, opened at the
// mix, passed on and received; every damage to a message in either part of its
// way, and every kind of forged header, is tried.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"os"

	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	"github.com/mutecomm/mute/verifkit/mixkit"
)

var r *vk.R

const now = 1500000000

var (
	mixKey = mixkit.NewKey("mix")
	other  = mixkit.NewKey("other")
)

func template(single bool) nymaddr.AddressTemplate {
	return nymaddr.AddressTemplate{
		Secret:        []byte("local secret of the recipient"),
		MixCandidates: mixaddr.AddressList{mixkit.Mix(mixKey, "mix@mute.one", now+5000)},
		Expire:        now + 1000,
		SingleUse:     single,
		MinDelay:      3,
		MaxDelay:      7,
	}
}

var mailbox = []byte("0123456789abcdef@rr.accounts.")

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

type settings struct {
	token    []byte
	min, max int32
}

func expectRelay(rs *mixcrypt.ReceiveStruct, s settings, revoke, addr, msg []byte, single bool) error {
	h := rs.MixHeader
	tok := s.token
	if len(tok) == 1 && tok[0] == 0 {
		tok = nil // a single zero stands for no token
	}
	if h.MessageType != mixcrypt.MessageTypeRelay || h.SenderMinDelay != s.min || h.SenderMaxDelay != s.max ||
		!bytes.Equal(h.Token, tok) || !bytes.Equal(h.RevokeID, revoke) || !bytes.Equal(h.Address, addr) {
		return vk.Badf("relay header", "%+v", *h)
	}
	if !bytes.Equal(rs.Message, msg) {
		return vk.Badf("relay body", "the body changed")
	}
	if rs.NymAddress == nil || rs.NymAddressPrivate == nil {
		return vk.Badf("relay address", "no address")
	}
	p := rs.NymAddressPrivate
	if !bytes.Equal(p.Address, mailbox) || p.Expire != now+1000 || p.SingleUse != single ||
		p.MinDelay != 3 || p.MaxDelay != 7 {
		return vk.Badf("relay address", "%+v", *p)
	}
	sum := sha256.Sum256(msg[:256])
	n := 1
	if single {
		n = 2
	}
	if len(rs.UniqueTest) != n || !bytes.Equal(rs.UniqueTest[0].Hash, sum[:]) || rs.UniqueTest[0].Expire != now+1000 ||
		(single && (!bytes.Equal(rs.UniqueTest[1].Hash, p.ReceiverPubKey) || rs.UniqueTest[1].Expire != now+1000)) {
		return vk.Badf("uniqueness", "%x", rs.UniqueTest)
	}
	return nil
}

var tokens = [][]byte{nil, {}, {0}, {1}, {0, 0}, {0x30, 0}, mixkit.Bytes("t", 32), mixkit.Bytes("t", 127),
	mixkit.Bytes("t", 128), mixkit.Bytes("t", 1000), mixkit.Bytes("t", 4096)}

var delays = []int32{0, 1, 127, 128, 255, 256, 65535, 1<<31 - 1, -1, -128, -129, -1 << 31}

// way seals a message and follows it to its recipient.
func way(single bool, s settings, msg []byte) (sealed []byte, err error) {
	tmpl := template(single)
	nym := mixkit.B32("nym")
	addr, err := tmpl.NewAddress(mailbox, nym)
	if err != nil {
		return nil, vk.Badf("new address", "%v", err)
	}
	cl := &mixcrypt.ClientMixHeader{SenderMinDelay: s.min, SenderMaxDelay: s.max, Token: s.token}
	sealed, to, err := cl.NewRelayMessage(addr, msg)
	if err != nil {
		return nil, vk.Badf("seal", "%v", err)
	}
	if to != "mix@mute.one" {
		return nil, vk.Badf("delivery address", "%s", to)
	}
	if len(cl.RevokeID) != 32 {
		return nil, vk.Badf("revoke id", "%x", cl.RevokeID)
	}
	rs, err := mixcrypt.ReceiveMessage(mixkit.Lookup(other, mixKey), mixkit.Copy(sealed))
	if err != nil {
		return nil, vk.Badf("open", "%v", err)
	}
	if err := expectRelay(rs, s, cl.RevokeID, addr, msg, single); err != nil {
		return nil, err
	}
	out, box, err := rs.Send()
	if err != nil {
		return nil, vk.Badf("pass on", "%v", err)
	}
	if box != string(mailbox)+"mute.one" {
		return nil, vk.Badf("mailbox", "%s", box)
	}
	got, gotNym, err := mixcrypt.ReceiveFromMix(nymaddr.AddressTemplate{Secret: tmpl.Secret}, mailbox, mixkit.Copy(out))
	if err != nil {
		return nil, vk.Badf("receive", "%v", err)
	}
	if !bytes.Equal(got, msg) || !bytes.Equal(gotNym, nym) {
		return nil, vk.Badf("received", "other message or pseudonym")
	}
	// nobody else opens it
	if _, err := mixcrypt.ReceiveMessage(mixkit.Lookup(other), mixkit.Copy(sealed)); err == nil {
		return nil, vk.Badf("opened by another mix", "")
	}
	wrong := func(p *[32]byte) *[32]byte { q := other.Priv; return &q }
	if _, err := mixcrypt.ReceiveMessage(wrong, mixkit.Copy(sealed)); err == nil {
		return nil, vk.Badf("opened with another key", "")
	}
	if _, _, err := mixcrypt.ReceiveFromMix(nymaddr.AddressTemplate{Secret: []byte("another secret")}, mailbox, mixkit.Copy(out)); err == nil {
		return nil, vk.Badf("received with another secret", "")
	}
	if _, _, err := mixcrypt.ReceiveFromMix(nymaddr.AddressTemplate{Secret: tmpl.Secret}, []byte("other@rr."), mixkit.Copy(out)); err == nil {
		return nil, vk.Badf("received in another mailbox", "")
	}
	r.Trace()
	return sealed, nil
}

func bodies() (out [][]byte) {
	var sizes []int
	lo, hi := mixcrypt.RelayMinSize, mixcrypt.RelayMaxSize
	for i := lo; i < lo+r.Pick(300, 1500); i++ {
		sizes = append(sizes, i)
	}
	for k := 13; k <= 16; k++ {
		sizes = append(sizes, 1<<k-1, 1<<k)
	}
	sizes = append(sizes, hi-1, hi)
	for _, n := range sizes {
		if n <= hi {
			out = append(out, mixkit.Bytes("body", n))
		}
	}
	out = append(out, make([]byte, lo), bytes.Repeat([]byte{0xff}, lo), bytes.Repeat([]byte{0x30}, lo))
	return
}

func roundtrips() {
	type job struct {
		single bool
		s      settings
		msg    []byte
		d      string
	}
	var jobs []job
	msg := mixkit.Bytes("body", 4096)
	for _, single := range []bool{false, true} {
		for i, t := range tokens {
			for _, a := range delays {
				for _, b := range delays {
					jobs = append(jobs, job{single, settings{t, a, b}, msg, fmt.Sprintf("relay single=%v token#%d delays %d %d", single, i, a, b)})
				}
			}
		}
		for i, m := range bodies() {
			jobs = append(jobs, job{single, settings{tokens[6], 1, 2}, m, fmt.Sprintf("relay single=%v body#%d of %d", single, i, len(m))})
		}
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		do(j.d, func() error { _, err := way(j.single, j.s, j.msg); return err })
	})
	// the size does not tell the content
	for _, n := range []int{4096, 5000, 65536} {
		size := -1
		for i := 0; i < r.Pick(6, 30); i++ {
			for _, s := range []settings{{tokens[6], 10, 20}, {mixkit.Bytes("u", 32), 11, 127}} {
				i, s := i, s
				do(fmt.Sprintf("size %d #%d %d", n, i, s.min), func() error {
					b := mixkit.Bytes(fmt.Sprint("b", i), n)
					if i == 0 {
						b = make([]byte, n)
					}
					m, err := way(false, s, b)
					if err != nil {
						return err
					}
					if size >= 0 && size != len(m) {
						return vk.Badf("size", "%d and %d bytes", size, len(m))
					}
					size = len(m)
					return nil
				})
			}
		}
	}
}

func forwards() {
	var jobs []int
	for i := range tokens {
		for j := range delays {
			jobs = append(jobs, i*100+j)
		}
	}
	check := func(s settings, next string, msg []byte) error {
		cl := &mixcrypt.ClientMixHeader{SenderMinDelay: s.min, SenderMaxDelay: s.max, Token: s.token, RevokeID: []byte("ignored")}
		m, to, err := cl.NewForwardMessage(next, &mixKey.Pub, msg)
		if err != nil {
			return vk.Badf("forward seal", "%v", err)
		}
		if to != next {
			return vk.Badf("forward address", "%s", to)
		}
		rs, err := mixcrypt.ReceiveMessage(mixkit.Lookup(mixKey), m)
		if err != nil {
			return vk.Badf("forward open", "%v", err)
		}
		tok := s.token
		if len(tok) == 1 && tok[0] == 0 {
			tok = nil
		}
		h := rs.MixHeader
		if h.MessageType != mixcrypt.MessageTypeForward || h.SenderMinDelay != s.min || h.SenderMaxDelay != s.max ||
			!bytes.Equal(h.Token, tok) || string(h.Address) != next || h.RevokeID != nil || rs.NymAddress != nil {
			return vk.Badf("forward header", "%+v", *h)
		}
		sum := sha256.Sum256(msg[:256])
		if len(rs.UniqueTest) != 1 || !bytes.Equal(rs.UniqueTest[0].Hash, sum[:]) || rs.UniqueTest[0].Expire != now+mixcrypt.ExpireReceive {
			return vk.Badf("forward uniqueness", "%x", rs.UniqueTest)
		}
		out, dest, err := rs.Send()
		if err != nil || dest != next || !bytes.Equal(out, msg) {
			return vk.Badf("forward pass on", "%v %s", err, dest)
		}
		return nil
	}
	r.Parallel(len(jobs), func(i int) {
		s := settings{tokens[jobs[i]/100], delays[jobs[i]%100], delays[(jobs[i]%100+5)%len(delays)]}
		do(fmt.Sprintf("forward token#%d delay %d", jobs[i]/100, s.min), func() error {
			return check(s, "mix1@mute.berlin", mixkit.Bytes("fwd", 1024+i))
		})
	})
	for _, next := range []string{"", "a", "mix@ü.de", "x@y"} {
		next := next
		do("forward to "+next, func() error { return check(settings{}, next, mixkit.Bytes("f", 65536)) })
	}
}

// bounds: messages outside the size classes are refused by the mix.
func bounds() {
	addr, err := template(false).NewAddress(mailbox, mixkit.B32("n"))
	if err != nil {
		panic(err)
	}
	var sizes []int
	for i := 0; i < 300; i++ {
		sizes = append(sizes, i)
	}
	for _, n := range []int{1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 65536 + 300, 131072, 266240} {
		sizes = append(sizes, n)
	}
	r.Parallel(len(sizes), func(i int) {
		n := sizes[i]
		for _, relay := range []bool{true, false} {
			relay := relay
			do(fmt.Sprintf("bounds relay=%v %d", relay, n), func() error {
				cl := &mixcrypt.ClientMixHeader{Token: []byte("t")}
				var m []byte
				var err error
				lo, hi := mixcrypt.ForwardMinSize, mixcrypt.ForwardMaxSize
				if relay {
					lo, hi = mixcrypt.RelayMinSize, mixcrypt.RelayMaxSize
					m, _, err = cl.NewRelayMessage(addr, mixkit.Bytes("x", n))
				} else {
					m, _, err = cl.NewForwardMessage("a@b", &mixKey.Pub, mixkit.Bytes("x", n))
				}
				if err != nil {
					if n >= lo && n <= hi {
						return vk.Badf("bounds seal", "%v", err)
					}
					return nil
				}
				_, err = mixcrypt.ReceiveMessage(mixkit.Lookup(mixKey), m)
				if n >= lo && n <= hi && err != nil {
					return vk.Badf("bounds refused", "%v", err)
				}
				if (n < lo || n > hi) && err == nil {
					return vk.Badf("bounds accepted", "%d bytes", n)
				}
				return nil
			})
		}
	})
	// headers too long to be described are not sent out
	for _, n := range []int{60000, 65000, 65100, 65200, 65300, 65400, 65500, 65530, 65533, 65535, 65536, 65540, 66000, 70000, 131072, 200000} {
		n := n
		do(fmt.Sprintf("token of %d bytes", n), func() error {
			tok := mixkit.Bytes("long", n)
			for _, relay := range []bool{true, false} {
				cl := &mixcrypt.ClientMixHeader{Token: tok}
				var m []byte
				var err error
				if relay {
					m, _, err = cl.NewRelayMessage(addr, mixkit.Bytes("x", 5000))
				} else {
					m, _, err = cl.NewForwardMessage("a@b", &mixKey.Pub, mixkit.Bytes("x", 5000))
				}
				if err != nil {
					if n <= 60000 {
						return vk.Badf("long token refused", "%v", err)
					}
					continue
				}
				rs, err := mixcrypt.ReceiveMessage(mixkit.Lookup(mixKey), m)
				if err != nil {
					return vk.Badf("long header unreadable", "sealed a message the mix cannot open: %v", err)
				}
				if !bytes.Equal(rs.MixHeader.Token, tok) || !bytes.Equal(rs.Message, mixkit.Bytes("x", 5000)) {
					return vk.Badf("long header misread", "")
				}
			}
			return nil
		})
	}
}

// damage: every damaged sealed message and every damaged mix output.
func damage() {
	tmpl := template(true)
	addr, err := tmpl.NewAddress(mailbox, mixkit.B32("n"))
	if err != nil {
		panic(err)
	}
	msg := mixkit.Bytes("body", 4096)
	cl := &mixcrypt.ClientMixHeader{SenderMinDelay: 5, SenderMaxDelay: 9, Token: mixkit.B32("tok")}
	sealed, _, err := cl.NewRelayMessage(addr, msg)
	if err != nil {
		panic(err)
	}
	rs0, err := mixcrypt.ReceiveMessage(mixkit.Lookup(mixKey, other), mixkit.Copy(sealed))
	if err != nil {
		panic(err)
	}
	out, _, err := rs0.Send()
	if err != nil {
		panic(err)
	}
	type job struct {
		d string
		b []byte
	}
	xor := []byte{0x01, 0x80}
	if r.Thorough() {
		xor = []byte{1, 2, 4, 8, 16, 32, 64, 128, 255}
	}
	var jobs []job
	mixkit.Damage(sealed, xor, func(d string, b []byte) { jobs = append(jobs, job{d, b}) })
	sub := mixkit.Copy(sealed)
	copy(sub, other.Pub[:])
	jobs = append(jobs, job{"addressed to another key of the mix", sub})
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		do("sealed: "+j.d, func() error {
			rs, err := mixcrypt.ReceiveMessage(mixkit.Lookup(mixKey, other), j.b)
			if err != nil {
				return nil
			}
			// only the sender's public key has an encoding that is not unique
			if i < len(sealed)*len(xor) {
				if pos := i / len(xor); pos >= 32 && pos < 64 {
					return expectRelay(rs, settings{cl.Token, 5, 9}, cl.RevokeID, addr, msg, true)
				}
			}
			return vk.Badf("damaged message accepted", "%s", j.d)
		})
	})
	jobs = nil
	mixkit.Damage(out, xor, func(d string, b []byte) { jobs = append(jobs, job{d, b}) })
	// spliced from two genuine messages
	addr2, _ := tmpl.NewAddress(mailbox, mixkit.B32("n"))
	sealed2, _, _ := (&mixcrypt.ClientMixHeader{Token: []byte("t")}).NewRelayMessage(addr2, mixkit.Bytes("second", 4096))
	rs2, err := mixcrypt.ReceiveMessage(mixkit.Lookup(mixKey), sealed2)
	if err != nil {
		panic(err)
	}
	out2, _, _ := rs2.Send()
	h1, h2 := 2+int(binary.BigEndian.Uint16(out)), 2+int(binary.BigEndian.Uint16(out2))
	jobs = append(jobs, job{"header of one, body of the other", append(mixkit.Copy(out[:h1]), out2[h2:]...)},
		job{"header of the other, body of the one", append(mixkit.Copy(out2[:h2]), out[h1:]...)})
	again, _, _ := rs0.Send()
	h3 := 2 + int(binary.BigEndian.Uint16(again))
	jobs = append(jobs, job{"header of an earlier delivery", append(mixkit.Copy(again[:h3]), out[h1:]...)})
	// every field of the header taken from another genuine header
	var a, b nymaddr.RelayHeader
	if _, err := asn1.Unmarshal(out[2:h1], &a); err != nil {
		panic(err)
	}
	if _, err := asn1.Unmarshal(out2[2:h2], &b); err != nil {
		panic(err)
	}
	for k := 1; k < 31; k++ {
		x := a
		for bit, f := range []func(){func() { x.SenderKey = b.SenderKey }, func() { x.Nonce = b.Nonce },
			func() { x.ReceiverPubKey = b.ReceiverPubKey }, func() { x.EncNym = b.EncNym }, func() { x.HMACHead = b.HMACHead }} {
			if k&(1<<uint(bit)) != 0 {
				f()
			}
		}
		d, err := asn1.Marshal(x)
		if err != nil {
			panic(err)
		}
		for _, body := range [][]byte{out[h1:], out2[h2:]} {
			m := make([]byte, 2)
			binary.BigEndian.PutUint16(m, uint16(len(d)))
			jobs = append(jobs, job{fmt.Sprintf("header fields %05b of another", k), append(append(m, d...), body...)})
		}
	}
	for k := 0; k < 1<<16; k += r.Pick(7, 1) {
		m := mixkit.Copy(out)
		binary.BigEndian.PutUint16(m, uint16(k))
		if k != h1-2 {
			jobs = append(jobs, job{fmt.Sprintf("header length %d", k), m})
		}
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		do("from the mix: "+j.d, func() error {
			m, _, err := mixcrypt.ReceiveFromMix(nymaddr.AddressTemplate{Secret: tmpl.Secret}, mailbox, j.b)
			if err == nil {
				return vk.Badf("damaged delivery accepted", "%s: %d bytes", j.d, len(m))
			}
			return nil
		})
	})
}

type header struct {
	MessageType                    int32
	SenderMinDelay, SenderMaxDelay int32
	Token, Address, RevokeID       []byte
}

// forged: plaintexts of a hostile sender, sealed correctly for the mix.
func forged() {
	addr, err := template(false).NewAddress(mailbox, mixkit.B32("n"))
	if err != nil {
		panic(err)
	}
	type job struct {
		d string
		p []byte
	}
	var jobs []job
	body := mixkit.Bytes("forged", 4096)
	add := func(d string, p []byte) { jobs = append(jobs, job{d, p}) }
	pack := func(h []byte, n int) []byte {
		p := make([]byte, 2)
		binary.BigEndian.PutUint16(p, uint16(n))
		return append(p, h...)
	}
	for n := 0; n < 8; n++ {
		add(fmt.Sprintf("%d bytes", n), make([]byte, n))
		add(fmt.Sprintf("%d ff bytes", n), bytes.Repeat([]byte{0xff}, n))
	}
	big := bytes.Repeat([]byte{0x30}, 70000)
	for k := 0; k < 1<<16; k += r.Pick(3, 1) {
		add(fmt.Sprintf("header length %d in %d bytes", k, len(big)+2), pack(big, k))
		if k < 600 {
			add(fmt.Sprintf("header length %d in 500 bytes", k), pack(big[:500], k))
		}
	}
	for k := 65500; k < 65536; k++ {
		add(fmt.Sprintf("header length %d", k), pack(big, k))
		add(fmt.Sprintf("header length %d, short", k), pack(big[:100], k))
	}
	good, _ := asn1.Marshal(header{2, 1, 2, []byte("tok"), addr, []byte("rev")})
	full := pack(good, len(good))
	for i := range full {
		step := r.Pick(1, 1)
		for x := 1; x < 256; x += step {
			d := mixkit.Copy(full)
			d[i] ^= byte(x)
			add(fmt.Sprintf("header byte %d xor %#02x", i, x), append(d, body...))
		}
	}
	for i := 0; i <= len(full); i++ {
		add(fmt.Sprintf("header cut to %d", i), mixkit.Copy(full[:i]))
		add(fmt.Sprintf("header cut to %d, body", i), append(mixkit.Copy(full[:i]), body...))
		if i > 1 {
			add(fmt.Sprintf("header shortened to %d", i), append(pack(good[:i-2], i-2), body...))
		}
	}
	fields := [][]byte{nil, {}, {0}, {1}, {0, 0}, addr, addr[:len(addr)/2], mixkit.Bytes("j", 300)}
	for _, t := range []int32{0, 1, 2, 3, -1, 1<<31 - 1, -1 << 31} {
		for a := range fields {
			for b := range fields {
				for c := range fields {
					h, err := asn1.Marshal(header{t, 0, 0, fields[a], fields[b], fields[c]})
					if err != nil {
						panic(err)
					}
					for _, n := range []int{0, 1, 100, 255, 256, 1023, 1024, 4096} {
						if n != 4096 && (a > 2 || c > 2) {
							continue
						}
						add(fmt.Sprintf("type %d fields %d %d %d body %d", t, a, b, c, n), append(pack(h, len(h)), body[:n]...))
					}
				}
			}
		}
	}
	// hostile addresses inside a good header
	var na nymaddr.Address
	asn1.Unmarshal(addr, &na)
	for i := 0; i <= 40; i++ {
		for f := 0; f < 5; f++ {
			x := na
			v := mixkit.Bytes("na", i)
			switch f {
			case 0:
				x.MixAddress = v
			case 1:
				x.TokenPubKey = v
			case 2:
				x.MixPubKey = v
			case 3:
				x.AddressKey = v
			case 4:
				x.PrivateData = v
			}
			a, _ := asn1.Marshal(x)
			h, _ := asn1.Marshal(header{2, 0, 0, []byte("t"), a, []byte("r")})
			add(fmt.Sprintf("address field %d of %d bytes", f, i), append(pack(h, len(h)), body...))
		}
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		do("forged: "+j.d, func() error {
			m, err := mixcrypt.Encrypt(&mixKey.Pub, nil, j.p)
			if err != nil {
				return vk.Badf("encrypt", "%v", err)
			}
			rs, err := mixcrypt.ReceiveMessage(mixkit.Lookup(mixKey), m)
			if err != nil {
				r.Outcome("refused")
				return nil
			}
			r.Outcome("accepted")
			if t := rs.MixHeader.MessageType; t != mixcrypt.MessageTypeForward && t != mixcrypt.MessageTypeRelay {
				return vk.Badf("unknown type accepted", "%d", t)
			}
			n := 2 + int(binary.BigEndian.Uint16(j.p))
			if n > len(j.p) || !bytes.Equal(rs.Message, j.p[n:]) {
				return vk.Badf("forged body", "the body is not what follows the header")
			}
			var h header
			if _, err := asn1.Unmarshal(j.p[2:n], &h); err != nil || h.MessageType != rs.MixHeader.MessageType ||
				!bytes.Equal(h.Address, rs.MixHeader.Address) {
				return vk.Badf("forged header", "read as %+v", *rs.MixHeader)
			}
			if rs.MixHeader.MessageType == mixcrypt.MessageTypeRelay && !bytes.Equal(rs.NymAddressPrivate.Address, mailbox) {
				return vk.Badf("forged addressee", "%q", rs.NymAddressPrivate.Address)
			}
			rs.Send()
			return nil
		})
	})
}

// whole: the client's functions, from message to mail and back.
func whole() {
	for i, n := range []int{4096, 10000, 47165, 65536} {
		i, n := i, n
		do(fmt.Sprintf("mail of %d", n), func() error {
			tmpl := template(i%2 == 0)
			nym := mixkit.B32("nym")
			addr, err := tmpl.NewAddress(mailbox, nym)
			if err != nil {
				return err
			}
			msg := mixkit.Bytes("mail", n)
			mo := client.MessageInput{SenderMinDelay: 1, SenderMaxDelay: 2, Token: []byte("tok"), NymAddress: addr,
				Message: msg, SMTPPort: 25, SmartHost: "h", CACert: []byte("ca")}.Create()
			if mo.Error != nil || !mo.Resend || mo.To != "mix@mute.one" || mo.SMTPPort != 25 || mo.SmartHost != "h" || string(mo.CACert) != "ca" {
				return vk.Badf("create", "%v", mo.Error)
			}
			mm := mo.Marshal().Unmarshal()
			if mm.Error != nil || !bytes.Equal(mm.Message, mo.Message) || !bytes.Equal(mm.RevokeID, mo.RevokeID) || mm.To != mo.To || !mm.Resend {
				return vk.Badf("create record", "%v", mm.Error)
			}
			m, err := client.ReadMail(mm.Message)
			if err != nil {
				return vk.Badf("mail", "%v", err)
			}
			rs, err := mixcrypt.ReceiveMessage(mixkit.Lookup(mixKey), m)
			if err != nil {
				return vk.Badf("mail open", "%v", err)
			}
			if err := expectRelay(rs, settings{[]byte("tok"), 1, 2}, mo.RevokeID, addr, msg, i%2 == 0); err != nil {
				return err
			}
			out, box, err := rs.Send()
			if err != nil {
				return err
			}
			m, err = client.ReadMail(client.WriteMail("mix@mute.one", box, out))
			if err != nil {
				return vk.Badf("mail out", "%v", err)
			}
			got, gotNym, err := mixcrypt.ReceiveFromMix(nymaddr.AddressTemplate{Secret: tmpl.Secret}, mailbox, m)
			if err != nil || !bytes.Equal(got, msg) || !bytes.Equal(gotNym, nym) {
				return vk.Badf("mail receive", "%v", err)
			}
			return nil
		})
	}
	// a header used again
	do("one header for two messages", func() error {
		addr, err := template(false).NewAddress(mailbox, mixkit.B32("n"))
		if err != nil {
			return err
		}
		cl := new(mixcrypt.ClientMixHeader)
		if _, _, err := cl.NewRelayMessage(addr, mixkit.Bytes("x", 4096)); err != nil {
			return err
		}
		first := mixkit.Copy(cl.RevokeID)
		if _, _, err := cl.NewRelayMessage(addr, mixkit.Bytes("y", 4096)); err != nil {
			return err
		}
		if bytes.Equal(first, cl.RevokeID) {
			return vk.Badf("revoke id", "two messages have the same")
		}
		return nil
	})
	// systems other than Mute are not known
	for _, sys := range []int32{1, -1, 256} {
		sys := sys
		do(fmt.Sprintf("address of system %d", sys), func() error {
			tmpl := template(false)
			tmpl.System = sys
			addr, err := tmpl.NewAddress(mailbox, mixkit.B32("n"))
			if err != nil {
				return nil
			}
			m, _, err := new(mixcrypt.ClientMixHeader).NewRelayMessage(addr, mixkit.Bytes("x", 4096))
			if err != nil {
				return nil
			}
			rs, err := mixcrypt.ReceiveMessage(mixkit.Lookup(mixKey), m)
			if err != nil {
				return nil
			}
			if _, to, err := rs.Send(); err == nil {
				return vk.Badf("system", "passed on to %s", to)
			}
			return nil
		})
	}
	for _, a := range [][]byte{nil, {}, {0x30}, []byte("x")} {
		a := a
		do(fmt.Sprintf("create with address %q", a), func() error {
			mo := client.MessageInput{NymAddress: a, Message: make([]byte, 5000)}.Create()
			if mo.Error == nil || mo.Message != nil {
				return vk.Badf("create without address", "%v", mo.Error)
			}
			return nil
		})
	}
}

// expiry: an address that expired on the way is refused, whatever its public
// part says.
func expiry() {
	defer clock.Freeze(now)
	single := false
	addr, err := template(single).NewAddress(mailbox, mixkit.B32("n"))
	if err != nil {
		panic(err)
	}
	single = true
	once, err := template(single).NewAddress(mailbox, mixkit.B32("n"))
	if err != nil {
		panic(err)
	}
	msg := mixkit.Bytes("e", 4096)
	var variants [][]byte
	for _, b := range [][]byte{addr, once} {
		for _, e := range []int64{1000, 100000} {
			for _, s := range []bool{false, true} {
				var a nymaddr.Address
				asn1.Unmarshal(b, &a)
				a.Expire, a.SingleUse = now+e, s
				x, _ := asn1.Marshal(a)
				variants = append(variants, x)
			}
		}
	}
	for _, dt := range []int64{0, 1, 999, 1001, 5000} {
		for k, na := range variants {
			clock.Freeze(now)
			na, dt, k := na, dt, k
			do(fmt.Sprintf("expiry after %d, address %d", dt, k), func() error {
				clock.Freeze(now)
				cl := new(mixcrypt.ClientMixHeader)
				sealed, _, err := cl.NewRelayMessage(na, msg)
				if err != nil {
					return vk.Badf("expiry seal", "%v", err)
				}
				clock.Freeze(now + dt)
				rs, err := mixcrypt.ReceiveMessage(mixkit.Lookup(mixKey), sealed)
				if dt < 1000 && err != nil {
					return vk.Badf("expiry refused", "%v", err)
				}
				if dt < 1000 {
					// the private part decides what is kept to recognise repetitions
					if err := expectRelay(rs, settings{}, cl.RevokeID, na, msg, k >= 4); err != nil {
						return err
					}
				}
				if dt > 1000 && err == nil {
					return vk.Badf("expired address accepted", "")
				}
				_, _, err = (&mixcrypt.ClientMixHeader{}).NewRelayMessage(addr, msg)
				if (err == nil) != (dt < 1000) {
					return vk.Badf("expired address sealed", "after %d: %v", dt, err)
				}
				return nil
			})
		}
	}
}

func main() {
	r = vk.Start("C14")
	out := os.Stdout
	if f, err := os.Open(os.DevNull); err == nil {
		os.Stdout = f // the code prints refused sizes
	}
	clock.Freeze(now)
	roundtrips()
	forwards()
	bounds()
	damage()
	forged()
	whole()
	expiry()
	if r.Expired() {
		r.Cap("deadline")
	}
	os.Stdout = out
	r.Done()
}
