// C28: key agreement, key derivation and signatures against independent
// references, and the keys of conversations compared between both ends.
package main

import (
	"bytes"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/uid"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/world"
)

var r *vk.R

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

type short struct{ n int }

func (s *short) Read(p []byte) (int, error) {
	if s.n == 0 {
		return 0, fmt.Errorf("no more randomness")
	}
	n := len(p)
	if n > s.n {
		n = s.n
	}
	s.n -= n
	return n, nil
}

func fails(f func() error) (failed bool) {
	defer func() {
		if recover() != nil {
			failed = true
		}
	}()
	return f() != nil
}

func agreement() {
	var privs [][32]byte
	add := func(b []byte) {
		var k [32]byte
		copy(k[:], b)
		privs = append(privs, k)
	}
	add(nil)
	add([]byte{1})
	add(bytes.Repeat([]byte{0xff}, 32))
	add([]byte{8})
	add([]byte{9})
	for i := 0; i < r.Pick(14, 60); i++ {
		b := make([]byte, 32)
		vk.NewRand(fmt.Sprint("priv", i)).Read(b)
		add(b)
	}
	x := ecdh.X25519()
	var pubs [][32]byte
	for _, p := range privs {
		p := p
		k, err := x.NewPrivateKey(p[:])
		if err != nil {
			panic(err)
		}
		var q [32]byte
		copy(q[:], k.PublicKey().Bytes())
		pubs = append(pubs, q)
		do(fmt.Sprintf("generate %x", p), func() error {
			c, err := cipher.Curve25519Generate(bytes.NewReader(p[:]))
			if err != nil || *c.PrivateKey() != p || *c.PublicKey() != q {
				return vk.Badf("generate", "key generated from %x: %v", p, err)
			}
			var d cipher.Curve25519Key
			if err := d.SetPrivateKey(c.PrivateKey()[:]); err != nil {
				return err
			}
			if err := d.SetPublicKey(c.PublicKey()[:]); err != nil {
				return err
			}
			if *d.PrivateKey() != p || *d.PublicKey() != q {
				return vk.Badf("curve:set", "key %x changed by setting it", p)
			}
			d.PublicKey()[0]++
			if c.PublicKey()[0] == d.PublicKey()[0] {
				return vk.Badf("curve:shared", "two keys share memory")
			}
			return nil
		})
	}
	peers := append([][32]byte(nil), pubs...)
	for _, v := range []byte{0, 1, 2, 0xff} { // small order and out of range ones
		var q [32]byte
		q[0] = v
		if v == 0xff {
			copy(q[:], bytes.Repeat([]byte{v}, 32))
		}
		peers = append(peers, q)
	}
	for _, q := range append([][32]byte(nil), peers...) { // the highest bit does not count
		q[31] ^= 128
		peers = append(peers, q)
	}
	for i, p := range privs {
		high := pubs[i]
		high[31] ^= 128
		for j, q := range peers {
			i, p, q := i, p, q
			do(fmt.Sprintf("ecdh %x %x", p, q), func() error {
				want := make([]byte, 32)
				sk, _ := x.NewPrivateKey(p[:])
				pk, err := x.NewPublicKey(q[:])
				if err != nil {
					return err
				}
				zero := false
				if s, err := sk.ECDH(pk); err == nil {
					want = s
				} else {
					zero = true
				}
				same := q == pubs[i] || q == high
				for _, own := range []*[32]byte{nil, &pubs[i], &high} {
					p2, q2 := p, q
					s, err := cipher.ECDH(&p2, &q2, own)
					if p2 != p || q2 != q {
						return vk.Badf("ecdh:input", "the exchange changed its keys")
					}
					if same {
						if err == nil {
							return vk.Badf("ecdh:reflected", "exchange of %x with itself (own key given: %v)", q, own != nil)
						}
						continue
					}
					if zero && err != nil {
						continue // refusing is fine
					}
					if err != nil || !bytes.Equal(s[:], want) {
						return vk.Badf("ecdh:value", "%x with %x gives %x, %v, want %x", p, q, s, err, want)
					}
				}
				if j < len(privs) && !same {
					a, err1 := cipher.ECDH(&p, &q, nil)
					b, err2 := cipher.ECDH(&privs[j], &pubs[i], nil)
					if err1 != nil || err2 != nil || *a != *b {
						return vk.Badf("ecdh:ends", "%x and %x derive %x and %x", pubs[i], q, a, b)
					}
					r.Outcome("agreed")
				}
				if _, err := cipher.ECDH(&p, &q, &q); err == nil {
					return vk.Badf("ecdh:own", "exchange with the own key accepted")
				}
				return nil
			})
		}
		do(fmt.Sprintf("ecdh nil %x", p), func() error {
			if _, err := cipher.ECDH(nil, &p, nil); err == nil {
				return vk.Badf("ecdh:nil", "no private key")
			}
			if _, err := cipher.ECDH(&p, nil, nil); err == nil {
				return vk.Badf("ecdh:nil", "no public key")
			}
			return nil
		})
	}
}

func lengths() {
	for l := 0; l <= 130; l++ {
		b := make([]byte, l)
		vk.NewRand("len").Read(b)
		do(fmt.Sprintf("keys of %d bytes", l), func() error {
			for name, t := range map[string]struct {
				want int
				f    func() error
			}{
				"Curve25519 public":  {32, func() error { return new(cipher.Curve25519Key).SetPublicKey(b) }},
				"Curve25519 private": {32, func() error { return new(cipher.Curve25519Key).SetPrivateKey(b) }},
				"Ed25519 public":     {32, func() error { return new(cipher.Ed25519Key).SetPublicKey(b) }},
				"Ed25519 private":    {64, func() error { return new(cipher.Ed25519Key).SetPrivateKey(b) }},
				"NaCl public":        {32, func() error { return new(cipher.NaClBoxKey).SetPublicKey(b) }},
				"NaCl private":       {32, func() error { return new(cipher.NaClBoxKey).SetPrivateKey(b) }},
			} {
				if (t.f() == nil) != (l == t.want) {
					return vk.Badf("keylength", "%s key of %d bytes: %v", name, l, t.f())
				}
			}
			return nil
		})
	}
	for n := 0; n < 32; n++ {
		do(fmt.Sprintf("keys from %d random bytes", n), func() error {
			for name, f := range map[string]func() error{
				"Curve25519": func() error { _, err := cipher.Curve25519Generate(&short{n}); return err },
				"NaCl":       func() error { _, err := cipher.NaClBoxGenerate(&short{n}); return err },
				"password":   func() error { cipher.RandPass(&short{n}); return nil },
			} {
				if !fails(f) {
					return vk.Badf("short", "%s made from %d random bytes", name, n)
				}
			}
			if n < 8 && !fails(func() error { cipher.Nonce(&short{n}); return nil }) {
				return vk.Badf("short", "nonce made from %d random bytes", n)
			}
			return nil
		})
	}
}

func signatures() {
	var keys []*cipher.Ed25519Key
	for i := 0; i < 4; i++ {
		k, err := cipher.Ed25519Generate(vk.NewRand(fmt.Sprint("ed", i)))
		if err != nil {
			panic(err)
		}
		keys = append(keys, k)
	}
	texts := [][]byte{nil, {0}, []byte("x"), []byte("xy"), bytes.Repeat([]byte("long "), 30)}
	for i, k := range keys {
		for _, text := range texts {
			i, k, text := i, k, text
			do(fmt.Sprintf("signature %d %q", i, text), func() error {
				sig := k.Sign(text)
				if !bytes.Equal(sig, ed25519.Sign(k.PrivateKey()[:], text)) || !ed25519.Verify(k.PublicKey()[:], text, sig) {
					return vk.Badf("sign", "signature of %q", text)
				}
				var pub, priv cipher.Ed25519Key
				if err := pub.SetPublicKey(k.PublicKey()[:]); err != nil {
					return err
				}
				if err := priv.SetPrivateKey(k.PrivateKey()[:]); err != nil {
					return err
				}
				if !bytes.Equal(priv.Sign(text), sig) || *priv.PrivateKey() != *k.PrivateKey() || *pub.PublicKey() != *k.PublicKey() {
					return vk.Badf("ed:restored", "a restored key signs differently")
				}
				for j, v := range keys {
					if v.Verify(text, sig) != (i == j) {
						return vk.Badf("verify", "signature of key %d with key %d: %v", i, j, i != j)
					}
				}
				if !pub.Verify(text, sig) {
					return vk.Badf("verify:restored", "restored public key refuses a signature")
				}
				for n := range sig {
					for b := uint(0); b < 8; b++ {
						x := append([]byte(nil), sig...)
						x[n] ^= 1 << b
						if pub.Verify(text, x) {
							return vk.Badf("verify:altered", "signature with bit %d of byte %d changed is accepted", b, n)
						}
					}
					if pub.Verify(text, sig[:n]) {
						return vk.Badf("verify:cut", "%d bytes of a signature are accepted", n)
					}
				}
				if pub.Verify(text, append(append([]byte(nil), sig...), 0)) {
					return vk.Badf("verify:long", "a longer signature is accepted")
				}
				for n := range text {
					x := append([]byte(nil), text...)
					x[n] ^= 0x10
					if pub.Verify(x, sig) || pub.Verify(text[:n], sig) {
						return vk.Badf("verify:text", "a changed text is accepted")
					}
				}
				return nil
			})
		}
	}
}

func half(a []byte, h int, x byte) []byte {
	b := append(append([]byte(nil), a[h*32:h*32+32]...), a[h*32:h*32+32]...)
	for i := range b {
		b[i] ^= x
	}
	return b
}

func derivation() {
	for n := 0; n <= 300; n++ {
		b := make([]byte, n)
		vk.NewRand(fmt.Sprint("d", n)).Read(b)
		do(fmt.Sprintf("derivation from %d bytes", n), func() error {
			h := sha512.Sum512(b)
			if !bytes.Equal(cipher.SHA512(b), h[:]) {
				return vk.Badf("sha512", "%x", b)
			}
			h1, h2 := sha1.Sum(b), sha256.Sum256(b)
			if !bytes.Equal(cipher.SHA1(b), h1[:]) || !bytes.Equal(cipher.SHA256(b), h2[:]) {
				return vk.Badf("sha", "%x", b)
			}
			sum := func(p ...[]byte) []byte { s := sha512.Sum512(bytes.Join(p, nil)); return s[:] }
			k1, k2 := cipher.CKDF(b)
			if !bytes.Equal(k1, sum(half(h[:], 0, 0x5c), sum(half(h[:], 1, 0x36)))) || !bytes.Equal(k2, sum(half(h[:], 1, 0x5c), sum(half(h[:], 0, 0x36)))) {
				return vk.Badf("ckdf", "keys derived from %x are not those of the specification", b)
			}
			for _, kl := range []int{0, 1, 32, 64, 127, 128, 129, 200} {
				key := bytes.Repeat([]byte{7}, kl)
				k := make([]byte, 128)
				if kl > 128 {
					copy(k, sum(key))
				} else {
					copy(k, key)
				}
				in, out := append([]byte(nil), k...), append([]byte(nil), k...)
				for i := range k {
					in[i] ^= 0x36
					out[i] ^= 0x5c
				}
				if !bytes.Equal(cipher.HMAC(key, b), sum(out, sum(in, b))) {
					return vk.Badf("hmac", "key of %d bytes, text of %d", kl, n)
				}
			}
			return nil
		})
	}
	do("random values differ", func() error {
		seen := map[string]bool{}
		rd := vk.NewRand("r")
		for i := 0; i < 300; i++ {
			p, n := cipher.RandPass(rd), cipher.Nonce(rd)
			if len(p) != 44 || len(n) != 8 || seen[p] || seen[string(n)] {
				return vk.Badf("random", "%q %x", p, n)
			}
			seen[p], seen[string(n)] = true, true
		}
		return nil
	})
}

// entries checks that key entries keep the keys put into them.
func entries() {
	for i := 0; i < 8; i++ {
		i := i
		for _, fn := range []string{"ECDHE25519", "ED25519"} {
			fn := fn
			do(fmt.Sprintf("key entry %d %s", i, fn), func() error {
				mk := func() (*uid.KeyEntry, error) {
					var ke uid.KeyEntry
					var err error
					if fn == "ED25519" {
						err = initEd(&ke, vk.NewRand(fmt.Sprint("ke", i)))
					} else {
						err = ke.InitDHKey(vk.NewRand(fmt.Sprint("ke", i)))
					}
					return &ke, err
				}
				a, err := mk()
				if err != nil {
					return err
				}
				b, err := uid.NewJSONKeyEntry(a.JSON())
				if err != nil || b.HASH != a.HASH || b.PUBKEY != a.PUBKEY || b.FUNCTION != fn || b.CIPHERSUITE != a.CIPHERSUITE {
					return vk.Badf("entry:json", "%s became %+v, %v", a.JSON(), b, err)
				}
				if fn == "ED25519" {
					return nil
				}
				pub, priv := *a.PublicKey32(), *a.PrivateKey32()
				if *b.PublicKey32() != pub {
					return vk.Badf("entry:public", "public key changed by encoding")
				}
				if err := b.SetPrivateKey(a.PrivateKey()); err != nil {
					return err
				}
				if *b.PrivateKey32() != priv {
					return vk.Badf("entry:private", "private key changed by storing")
				}
				c, err := cipher.Curve25519Generate(bytes.NewReader(priv[:]))
				if err != nil || *c.PublicKey() != pub {
					return vk.Badf("entry:pair", "public and private key do not belong together")
				}
				for j := 0; j < 8; j++ {
					var o uid.KeyEntry
					if err := o.InitDHKey(vk.NewRand(fmt.Sprint("ke", j))); err != nil {
						return err
					}
					x, err1 := cipher.ECDH(a.PrivateKey32(), o.PublicKey32(), a.PublicKey32())
					y, err2 := cipher.ECDH(o.PrivateKey32(), b.PublicKey32(), o.PublicKey32())
					if i == j {
						if err1 == nil || err2 == nil {
							return vk.Badf("entry:reflected", "exchange of an entry with itself")
						}
					} else if err1 != nil || err2 != nil || *x != *y {
						return vk.Badf("entry:agree", "%v %v", err1, err2)
					}
				}
				return nil
			})
		}
	}
}

func initEd(ke *uid.KeyEntry, rd *vk.Rand) error {
	m, err := uid.Create("abc@d", false, "", "", uid.Strict, hashchain.TestEntry, rd)
	if err != nil {
		return err
	}
	*ke = m.UIDContent.SIGKEY
	return nil
}

// stored is what one party stored about one session.
type stored struct {
	own, chain string
	send, recv []string
}

// recorder keeps everything a party's key store was given.
type recorder struct {
	*world.Store
	all map[string]*stored // by root key hash of the session
	by  map[string]string  // session key -> root key hash
}

func (x *recorder) StoreSession(k, root, chain string, send, recv []string) error {
	n := &stored{own: k, chain: chain}
	if o, ok := x.by[k]; ok { // more keys for a session
		root = o
		n.send, n.recv = append(n.send, x.all[o].send...), append(n.recv, x.all[o].recv...)
	}
	n.send, n.recv = append(n.send, send...), append(n.recv, recv...)
	x.all[root], x.by[k] = n, root
	return x.Store.StoreSession(k, root, chain, send, recv)
}

func (x *recorder) clone() *recorder {
	c := &recorder{x.Store.Clone(), map[string]*stored{}, map[string]string{}}
	for k, v := range x.all {
		c.all[k] = v
	}
	for k, v := range x.by {
		c.by[k] = v
	}
	return c
}

type member struct {
	p  *world.Party
	st *recorder
}

func (m *member) clone() *member {
	p := *m.p
	return &member{&p, m.st.clone()}
}

func compare(ms []*member) error {
	seen := map[string]string{} // key -> where
	for _, m := range ms {
		for root, s := range m.st.all {
			var other *stored
			var on string
			for _, o := range ms {
				if t := o.st.all[root]; o != m && t != nil {
					if other != nil {
						return vk.Badf("session:shared", "three parties hold one session")
					}
					other, on = t, o.p.Name
				}
			}
			if len(s.send) != len(s.recv) {
				return vk.Badf("session:count", "%d sending, %d receiving keys", len(s.send), len(s.recv))
			}
			// every key has one purpose
			for dir, l := range map[string][]string{"from " + m.p.Name: s.send, "to " + m.p.Name: s.recv} {
				for i, k := range l {
					where := fmt.Sprintf("%s %d in %s", dir, i, root)
					if other != nil && dir[0] == 't' {
						where = fmt.Sprintf("from %s %d in %s", on, i, root)
					}
					if w, ok := seen[k]; ok && w != where {
						return vk.Badf("session:reuse", "one message key for %s and %s", w, where)
					}
					seen[k] = where
				}
			}
			if other == nil {
				continue
			}
			for i := 0; i < len(s.send) && i < len(other.send); i++ {
				if s.send[i] != other.recv[i] || s.recv[i] != other.send[i] {
					return vk.Badf("session:ends", "the ends derived different keys %d", i)
				}
			}
			if len(s.send) == len(other.send) && s.chain != other.chain {
				return vk.Badf("session:chain", "the ends continue differently")
			}
		}
	}
	return nil
}

func conversations() {
	mk := func() []*member {
		var ps []*world.Party
		for _, n := range []string{"alice@mute.berlin", "bob@mute.berlin", "carol@mute.berlin"} {
			p, err := world.NewParty(n, "c28")
			if err != nil {
				panic(err)
			}
			ps = append(ps, p)
		}
		if err := world.Meet(ps...); err != nil {
			panic(err)
		}
		var ms []*member
		for _, p := range ps {
			ms = append(ms, &member{p, &recorder{p.Store, map[string]*stored{}, map[string]string{}}})
		}
		return ms
	}
	type act struct {
		from, to int
		lose     bool
	}
	acts := []act{{0, 1, false}, {1, 0, false}, {0, 2, false}, {0, 1, true}, {1, 0, true}, {2, 0, false}}
	depth := r.Pick(5, 7)
	var rec func(ms []*member, path string, d int, keys uint64)
	step := func(ms []*member, a act, path string, keys uint64) ([]*member, error) {
		var c []*member
		for _, m := range ms {
			c = append(c, m.clone())
		}
		f, t := c[a.from], c[a.to]
		vk.GoRand.Use(&f.p.Rand)
		enc, _, err := f.p.SendTo(f.st, t.p.UID, []byte(path), false, false, keys, msg.StatusOK)
		if err != nil {
			return nil, err
		}
		if !a.lose {
			vk.GoRand.Use(&t.p.Rand)
			o, err := t.p.OpenWith(t.st, []*uid.Message{t.p.UID}, enc, keys)
			if err != nil || string(o.Content) != path {
				return nil, vk.Badf("open", "%v", err)
			}
		}
		return c, compare(c)
	}
	rec = func(ms []*member, path string, d int, keys uint64) {
		if d == 0 || r.Expired() {
			return
		}
		for i, a := range acts {
			p := fmt.Sprintf("%s%d", path, i)
			var next []*member
			if r.Case(fmt.Sprintf("conversation %s with %d keys", p, keys), func() error {
				var err error
				next, err = step(ms, a, p, keys)
				return err
			}) {
				r.Eval(fmt.Sprint(p, keys))
				r.State(fmt.Sprint(p, keys))
				r.Trans()
				if d == 1 {
					r.Trace()
				}
				rec(next, p, d-1, keys)
			}
		}
	}
	n := len(acts)
	r.Parallel(n*n*2, func(i int) {
		keys := uint64(2 + i%2*3)
		i /= 2
		ms := mk()
		path := ""
		for _, k := range []int{i / n, i % n} {
			path += fmt.Sprint(k)
			var err error
			if ms, err = step(ms, acts[k], path, keys); err != nil {
				r.Case("conversation "+path, func() error { return err })
				return
			}
		}
		rec(ms, path, depth-2, keys)
	})
}

func main() {
	r = vk.Start("C28")
	world.Init()
	agreement()
	lengths()
	signatures()
	derivation()
	entries()
	conversations()
	if r.Expired() {
		r.Cap("deadline")
	}
	r.Done()
}
