// C20: issuer keys, tokens, requests and wallet credentials. Every element and
// byte of honest ones is altered, all holders' keys are exchanged, and whether
// they are accepted is compared with a reference: exactly when unaltered.
package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/asn1"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"unsafe"

	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/packetproto"
	"github.com/mutecomm/mute/serviceguard/client/walletstore/nilstore"
	"github.com/mutecomm/mute/serviceguard/common/keypool"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	"github.com/mutecomm/mute/verifkit/guardkit"
	"github.com/ronperry/cryptoedge/eccutil"
	"github.com/ronperry/cryptoedge/jjm"
)

var r *vk.R

const (
	now  = 1500000000
	life = 1000000
)

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

type job struct {
	desc string
	f    func() error
}

var jobs []job

// later is do, with others at the same time, before flush returns.
func later(desc string, f func() error) {
	if jobs = append(jobs, job{desc, f}); len(jobs) >= 1<<15 {
		flush()
	}
}

func flush() {
	const n = 64
	r.Parallel((len(jobs)+n-1)/n, func(i int) {
		for k := i * n; k < len(jobs) && k < i*n+n; k++ {
			do(jobs[k].desc, jobs[k].f)
		}
	})
	jobs = jobs[:0]
}

// each calls f for all numbers below n.
func each(n int, f func(i int)) {
	for i := 0; i < n; i++ {
		f(i)
	}
	flush()
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// values are the bytes tried in place of b.
func values(b byte, all bool) []byte {
	var l []byte
	if all {
		for x := 0; x < 256; x++ {
			if byte(x) != b {
				l = append(l, byte(x))
			}
		}
		return l
	}
	for i := uint(0); i < 8; i++ {
		l = append(l, b^1<<i)
	}
	for _, x := range []byte{0, 0xff, b + 1, b - 1, 0x30, 0x04} {
		if x != b {
			l = append(l, x)
		}
	}
	return l
}

// bytesOf calls f with every alteration of one byte of b, every cut, and b
// with bytes added.
func bytesOf(b []byte, all bool, f func(what string, c []byte)) {
	for i := range b {
		for _, x := range values(b[i], all) {
			c := append([]byte{}, b...)
			c[i] = x
			f(fmt.Sprintf("byte %d is %#x", i, x), c)
		}
		f(fmt.Sprintf("cut at %d", i), append([]byte{}, b[:i]...))
		f(fmt.Sprintf("without byte %d", i), append(append([]byte{}, b[:i]...), b[i+1:]...))
		f(fmt.Sprintf("zero before byte %d", i), append(append(append([]byte{}, b[:i]...), 0), b[i:]...))
	}
	f("zero appended", append(append([]byte{}, b...), 0))
	f("doubled", append(append([]byte{}, b...), b...))
}

func num(b []byte) string { return new(big.Int).SetBytes(b).String() }

// ---- issuer keys

func keyContent(k *signkeys.PublicKey) string {
	return fmt.Sprintf("%x|%s|%s|%d|%q|%x", k.KeyID, k.PublicKey.X, k.PublicKey.Y, k.Expire, k.Usage, k.Signer)
}

func pool(signers ...guardkit.Pair) *keypool.KeyPool {
	kp := keypool.New(signkeys.New(elliptic.P256, rand.Reader, eccutil.Sha1Hash))
	for _, s := range signers {
		kp.AddVerifyKey(s.Pub)
	}
	return kp
}

// judgeKey looks whether a key is accepted exactly when it should be.
func judgeKey(k *signkeys.PublicKey, should bool, signers ...guardkit.Pair) error {
	p := pool(signers...)
	_, err := p.LoadKey(k)
	if should && err != nil {
		return vk.Badf("genuine issuer key refused", "%v", err)
	}
	got, lerr := p.Lookup(k.KeyID)
	if !should && (err == nil || lerr == nil) {
		return vk.Badf("altered issuer key accepted", "%s", keyContent(k))
	}
	if should && (lerr != nil || keyContent(got) != keyContent(k)) {
		return vk.Badf("issuer key not served", "%v", lerr)
	}
	return nil
}

func keys() {
	is, other := guardkit.NewIssuer(1, "Message"), guardkit.NewIssuer(2, "Message")
	usages := []string{"Message", "", "a", "a:b", ":", "12345678:rest", "ü", strings.Repeat("x", 300)}
	var list []*signkeys.PublicKey
	var who []*guardkit.Issuer
	for i, u := range usages {
		for _, x := range []*guardkit.Issuer{is, other} {
			y := guardkit.NewIssuer(byte(1), u)
			if x == other {
				y = guardkit.NewIssuer(byte(2), u)
			}
			exp := int64(life)
			if i%2 == 1 {
				exp = 0x3a3a3a3a3a - now // the time contains separators
			}
			list = append(list, &y.Key(exp).PublicKey)
			who = append(who, y)
		}
	}
	// Find keys whose coordinates have a leading zero byte, where lengths vary.
	for found, n := 0, 0; found < r.Pick(2, 6) && n < 20000; n++ {
		k := &is.Key(life).PublicKey
		if len(k.PublicKey.X.Bytes()) < 32 || len(k.PublicKey.Y.Bytes()) < 32 {
			list, who, found = append(list, k), append(who, is), found+1
		}
	}
	r.Note("issuer keys", len(list))
	each(len(list), func(i int) {
		k, x := list[i], who[i]
		desc := fmt.Sprintf("issuer key %d usage %.12q", i, k.Usage)
		enc, err := k.Marshal()
		must(err)
		do(desc+" unaltered", func() error {
			d, err := new(signkeys.PublicKey).Unmarshal(enc)
			if err != nil {
				return vk.Badf("issuer key does not decode", "%v", err)
			}
			if keyContent(d) != keyContent(k) || d.Signature != k.Signature {
				return vk.Badf("issuer key changed by encoding", "%s is not %s", keyContent(d), keyContent(k))
			}
			if !d.Verify(x.Pub) {
				return vk.Badf("genuine issuer key does not verify", "%s", keyContent(d))
			}
			o := guardkit.NewPair(77)
			if d.Verify(o.Pub) {
				return vk.Badf("issuer key verifies with another signer", "%s", keyContent(d))
			}
			if err := judgeKey(d, true, x.Pair); err != nil {
				return err
			}
			if err := judgeKey(d, true, o, x.Pair); err != nil {
				return err
			}
			return judgeKey(d, false, o)
		})
		check := func(what string, d *signkeys.PublicKey) {
			later(desc+" "+what, func() error {
				same := keyContent(d) == keyContent(k) && d.Signature == k.Signature
				if !same {
					r.Outcome("altered")
				}
				return judgeKey(d, same, x.Pair, guardkit.NewPair(1), guardkit.NewPair(2))
			})
		}
		bytesOf(enc, i < 2 || r.Thorough(), func(what string, b []byte) {
			var d *signkeys.PublicKey
			if !r.Case(desc+" encoded "+what, func() error {
				d, err = new(signkeys.PublicKey).Unmarshal(b)
				return nil
			}) || err != nil {
				return
			}
			check("encoded "+what, d)
		})
		alt := func(what string, f func(d *signkeys.PublicKey)) {
			d := *k
			d.PublicKey.X, d.PublicKey.Y = new(big.Int).Set(k.PublicKey.X), new(big.Int).Set(k.PublicKey.Y)
			f(&d)
			check(what, &d)
		}
		one := big.NewInt(1)
		prm := elliptic.P256().Params()
		for n, f := range map[string]func(d *signkeys.PublicKey){
			"expires later":     func(d *signkeys.PublicKey) { d.Expire++ },
			"expires earlier":   func(d *signkeys.PublicKey) { d.Expire-- },
			"never expires":     func(d *signkeys.PublicKey) { d.Expire = 1<<63 - 1 },
			"usage longer":      func(d *signkeys.PublicKey) { d.Usage += "x" },
			"usage with colon":  func(d *signkeys.PublicKey) { d.Usage += ":" },
			"usage other":       func(d *signkeys.PublicKey) { d.Usage = "Account" },
			"usage none":        func(d *signkeys.PublicKey) { d.Usage = "" },
			"signer other":      func(d *signkeys.PublicKey) { d.Signer = *guardkit.NewPair(2).Pub; d.Signer[0] ^= 1 },
			"X next":            func(d *signkeys.PublicKey) { d.PublicKey.X.Add(d.PublicKey.X, one) },
			"Y negated":         func(d *signkeys.PublicKey) { d.PublicKey.Y.Sub(prm.P, d.PublicKey.Y) },
			"X plus P":          func(d *signkeys.PublicKey) { d.PublicKey.X.Add(prm.P, d.PublicKey.X) },
			"point zero":        func(d *signkeys.PublicKey) { d.PublicKey = *eccutil.ZeroPoint() },
			"point swapped":     func(d *signkeys.PublicKey) { d.PublicKey.X, d.PublicKey.Y = d.PublicKey.Y, d.PublicKey.X },
			"base point":        func(d *signkeys.PublicKey) { d.PublicKey.X, d.PublicKey.Y = prm.Gx, prm.Gy },
			"key id zero":       func(d *signkeys.PublicKey) { d.KeyID = [32]byte{} },
			"signature zero":    func(d *signkeys.PublicKey) { d.Signature = [64]byte{} },
			"key id calculated": func(d *signkeys.PublicKey) { d.Expire++; d.KeyID = d.CalcKeyID() },
			"signed by other": func(d *signkeys.PublicKey) {
				copy(d.Signature[:], ed25519.Sign(guardkit.NewPair(9).Priv[:], d.KeyID[:]))
			},
			"altered and signed by other": func(d *signkeys.PublicKey) {
				d.Expire++
				d.KeyID = d.CalcKeyID()
				copy(d.Signature[:], ed25519.Sign(guardkit.NewPair(9).Priv[:], d.KeyID[:]))
			},
			"signer other and signed by it": func(d *signkeys.PublicKey) {
				d.Signer = *guardkit.NewPair(9).Pub
				d.KeyID = d.CalcKeyID()
				copy(d.Signature[:], ed25519.Sign(guardkit.NewPair(9).Priv[:], d.KeyID[:]))
			},
			"signature malleated": func(d *signkeys.PublicKey) {
				L, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
				var s [32]byte
				for j := range s {
					s[j] = d.Signature[63-j]
				}
				v := new(big.Int).SetBytes(s[:])
				v.Add(v, L)
				b := v.Bytes()
				for j := range s {
					s[j] = 0
				}
				copy(s[32-len(b):], b)
				for j := range s {
					d.Signature[63-j] = s[j]
				}
			},
		} {
			alt(n, f)
		}
		for j := range list {
			if j != i {
				alt(fmt.Sprintf("signature of key %d", j), func(d *signkeys.PublicKey) { d.Signature = list[j].Signature })
				alt(fmt.Sprintf("key id and signature of key %d", j), func(d *signkeys.PublicKey) {
					d.Signature, d.KeyID = list[j].Signature, list[j].KeyID
				})
				alt(fmt.Sprintf("point of key %d", j), func(d *signkeys.PublicKey) {
					d.PublicKey.X, d.PublicKey.Y = new(big.Int).Set(list[j].PublicKey.X), new(big.Int).Set(list[j].PublicKey.Y)
				})
			}
		}
		// All readings of the text the key id is made of.
		img := append(append([]byte{}, k.PublicKey.X.Bytes()...), k.PublicKey.Y.Bytes()...)
		img = append(img, make([]byte, 8)...)
		binary.BigEndian.PutUint64(img[len(img)-8:], uint64(k.Expire))
		img = append(append(append(img, ':'), k.Usage...), ':')
		img = append(img, k.Signer[:]...)
		for b := 0; b+9 < len(img)-32; b++ {
			if img[b+8] != ':' {
				continue
			}
			for a := 0; a <= b; a++ {
				x, y := new(big.Int).SetBytes(img[:a]), new(big.Int).SetBytes(img[a:b])
				alt(fmt.Sprintf("read anew at %d and %d", a, b), func(d *signkeys.PublicKey) {
					d.PublicKey.X, d.PublicKey.Y = x, y
					d.Expire = int64(binary.BigEndian.Uint64(img[b : b+8]))
					d.Usage = string(img[b+9 : len(img)-33])
				})
			}
		}
	})
	// The time.
	for _, life := range []int64{-1, 0, 1, 1000} {
		k := &is.Key(life).PublicKey
		for _, at := range []int64{-1, 0, 1} {
			clock.Freeze(now + life + at)
			do(fmt.Sprintf("issuer key with %d s loaded %d s after it expires", life, at), func() error {
				if at == 0 { // the last second is left open
					_, err := pool(is.Pair).LoadKey(k)
					_ = err
					return nil
				}
				return judgeKey(k, at < 0, is.Pair)
			})
			do(fmt.Sprintf("issuer key with %d s looked up %d s after it expires", life, at), func() error {
				clock.Freeze(now + life - 100)
				p := pool(is.Pair)
				if _, err := p.LoadKey(k); err != nil {
					return vk.Badf("genuine issuer key refused", "%v", err)
				}
				clock.Freeze(now + life + at)
				_, err := p.Lookup(k.KeyID)
				if at < 0 && err != nil {
					return vk.Badf("issuer key not served", "%v", err)
				}
				if at > 0 && err == nil {
					return vk.Badf("expired issuer key served", "%s", keyContent(k))
				}
				return nil
			})
			clock.Freeze(now)
		}
	}
}

// ---- tokens

// newClient makes a client which knows the given keys.
func newClient(w guardkit.Pair, signers []guardkit.Pair, keys ...*signkeys.PublicKey) *client.Client {
	ns := &nilstore.NilStore{}
	for _, s := range signers {
		ns.VerifyKeys = append(ns.VerifyKeys, *s.Pub)
	}
	c, err := client.New(nil, ns, w.Priv, nil)
	must(err)
	must(c.GetVerifyKeys())
	for _, k := range keys {
		_, err := packetClient(c).Keypool.LoadKey(k)
		must(err)
	}
	return c
}

func packetClient(c *client.Client) *packetproto.Client {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*packetproto.Client)(nil)) {
			return *(**packetproto.Client)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
		}
	}
	panic("no packet client")
}

func signed(t *token.Token) string {
	return fmt.Sprintf("%x|%v|%x|%x", t.KeyID, t.Flag, t.Nonce, t.Owner)
}

func seal(t *token.Token) string {
	n := elliptic.P256().Params().N
	s := new(big.Int).Mod(new(big.Int).SetBytes(t.ScalarS), n)
	x := new(big.Int).Mod(new(big.Int).SetBytes(t.ScalarR), n)
	return fmt.Sprintf("%s|%s|%s|%s", num(t.PointRX), num(t.PointRY), s, x)
}

func owner(t *token.Token) string {
	if t.Flag {
		return fmt.Sprintf("%x", t.Owner)
	}
	return "none"
}

// verify runs the client's verification and compares it with should.
func verify(c *client.Client, enc []byte, should bool, want *token.Token, k *signkeys.PublicKey) error {
	e, err := c.Verify(enc)
	if !should {
		if err == nil {
			return vk.Badf("altered token accepted", "%x", enc)
		}
		return nil
	}
	if err != nil {
		return vk.Badf("genuine token refused", "%v (%v)", err, c.LastError)
	}
	o := "none"
	if e.OwnerPubKey != nil {
		o = fmt.Sprintf("%x", *e.OwnerPubKey)
	}
	if o != owner(want) || e.Usage != k.Usage || e.Expire != k.Expire || !bytes.Equal(e.Token, enc) || !bytes.Equal(e.Hash, want.Hash()) {
		return vk.Badf("genuine token reported as another", "owner %s usage %q expire %d", o, e.Usage, e.Expire)
	}
	return nil
}

func tokens() {
	is, other := guardkit.NewIssuer(1, "Message"), guardkit.NewIssuer(2, "Message")
	k, k2, k3 := is.Key(life), is.Key(life), other.Key(life)
	al, bo := guardkit.NewPair(11), guardkit.NewPair(12)
	all := []guardkit.Pair{is.Pair, other.Pair}
	type sample struct {
		t *token.Token
		k *signkeys.KeyPair
		n string
	}
	var list []sample
	for _, o := range []*guardkit.Pair{nil, &al, &bo} {
		for _, kk := range []*signkeys.KeyPair{k, k2, k3} {
			for n := 0; n < 2; n++ {
				var pub *[32]byte
				nm := "none"
				if o != nil {
					pub, nm = o.Pub, fmt.Sprintf("%x", o.Pub[:2])
				}
				i := is
				if kk == k3 {
					i = other
				}
				list = append(list, sample{i.Issue(kk, pub), kk, fmt.Sprintf("token %d of %s", len(list), nm)})
			}
		}
	}
	clients := make([]*client.Client, len(list))
	for i := range clients {
		clients[i] = newClient(al, all, &k.PublicKey, &k2.PublicKey, &k3.PublicKey)
	}
	dense := func(i int) bool { return i == 0 || i == 6 || r.Thorough() }
	each(len(list), func(i int) {
		s, c := list[i], clients[i]
		enc, err := s.t.Marshal()
		must(err)
		do(s.n+" unaltered", func() error {
			d, err := token.Unmarshal(enc)
			if err != nil || signed(d) != signed(s.t) || seal(d) != seal(s.t) {
				return vk.Badf("token changed by encoding", "%v", err)
			}
			id, o := d.Properties()
			if *id != s.k.PublicKey.KeyID || (o == nil) != !s.t.Flag || d.HasOwner() != s.t.Flag || o != nil && fmt.Sprintf("%x", *o) != owner(s.t) {
				return vk.Badf("token properties wrong", "%x %v", *id, o)
			}
			return verify(c, enc, true, s.t, &s.k.PublicKey)
		})
		check := func(what string, b []byte) {
			later(s.n+" "+what, func() error {
				d := new(token.Token)
				rest, err := asn1.Unmarshal(b, d)
				same := err == nil && signed(d) == signed(s.t) && seal(d) == seal(s.t)
				if same && len(rest) > 0 {
					// What follows a token is not part of it.
					_, err := c.Verify(b)
					_ = err
					return nil
				}
				if err := verify(c, b, same, s.t, &s.k.PublicKey); err != nil {
					return err
				}
				return nil
			})
		}
		bytesOf(enc, dense(i), check)
		alt := func(what string, f func(t *token.Token)) {
			d := *s.t
			for _, p := range []*[]byte{&d.KeyID, &d.Nonce, &d.Owner, &d.PointRX, &d.PointRY, &d.ScalarR, &d.ScalarS} {
				*p = append([]byte{}, *p...)
			}
			f(&d)
			b, err := d.Marshal()
			must(err)
			check(what, b)
		}
		prm := elliptic.P256().Params()
		field := func(t *token.Token, n int) *[]byte {
			return []*[]byte{&t.KeyID, &t.Nonce, &t.Owner, &t.PointRX, &t.PointRY, &t.ScalarR, &t.ScalarS}[n]
		}
		for n, nm := range []string{"key id", "nonce", "owner", "RX", "RY", "r", "s"} {
			alt(nm+" emptied", func(t *token.Token) { *field(t, n) = nil })
			alt(nm+" zeroed", func(t *token.Token) { *field(t, n) = make([]byte, len(*field(t, n))) })
			alt(nm+" with a zero in front", func(t *token.Token) { *field(t, n) = append([]byte{0}, *field(t, n)...) })
			alt(nm+" with a zero behind", func(t *token.Token) { *field(t, n) = append(*field(t, n), 0) })
			alt(nm+" shortened", func(t *token.Token) { *field(t, n) = (*field(t, n))[:len(*field(t, n))-1] })
			alt(nm+" huge", func(t *token.Token) { *field(t, n) = bytes.Repeat([]byte{0xee}, 5000) })
			for _, v := range []*big.Int{prm.N, prm.P, prm.Gx, prm.Gy, big.NewInt(1)} {
				alt(nm+" plus "+v.String(), func(t *token.Token) {
					*field(t, n) = new(big.Int).Add(v, new(big.Int).SetBytes(*field(t, n))).Bytes()
				})
				alt(nm+" less than "+v.String(), func(t *token.Token) {
					d := new(big.Int).Sub(v, new(big.Int).SetBytes(*field(t, n)))
					*field(t, n) = d.Abs(d).Bytes()
				})
				alt(nm+" is "+v.String(), func(t *token.Token) { *field(t, n) = v.Bytes() })
			}
			for j := range list {
				if j != i && (signed(list[j].t) != signed(s.t) || seal(list[j].t) != seal(s.t)) {
					alt(fmt.Sprintf("%s of token %d", nm, j), func(t *token.Token) { *field(t, n) = *field(list[j].t, n) })
				}
			}
		}
		for j := range list {
			if j != i {
				alt(fmt.Sprintf("seal of token %d", j), func(t *token.Token) {
					t.PointRX, t.PointRY, t.ScalarR, t.ScalarS = list[j].t.PointRX, list[j].t.PointRY, list[j].t.ScalarR, list[j].t.ScalarS
				})
				alt(fmt.Sprintf("owner and flag of token %d", j), func(t *token.Token) { t.Owner, t.Flag = list[j].t.Owner, list[j].t.Flag })
			}
		}
		alt("flag turned", func(t *token.Token) { t.Flag = !t.Flag })
		alt("flag turned and owner zeroed", func(t *token.Token) { t.Flag = !t.Flag; t.Owner = make([]byte, 32) })
		alt("point zero", func(t *token.Token) { t.PointRX, t.PointRY = nil, nil })
		alt("point and scalars zero", func(t *token.Token) { t.PointRX, t.PointRY, t.ScalarR, t.ScalarS = nil, nil, nil, nil })
		alt("point negated", func(t *token.Token) {
			t.PointRY = new(big.Int).Sub(prm.P, new(big.Int).SetBytes(t.PointRY)).Bytes()
		})
		alt("scalars exchanged", func(t *token.Token) { t.ScalarR, t.ScalarS = t.ScalarS, t.ScalarR })
		alt("coordinates exchanged", func(t *token.Token) { t.PointRX, t.PointRY = t.PointRY, t.PointRX })
		// All ways to cut the signed text into its fields anew.
		if dense(i) {
			img := append(append(append(append([]byte{}, s.t.KeyID...), 0), s.t.Nonce...), s.t.Owner...)
			if s.t.Flag {
				img[32] = 1
			}
			for a := range img {
				if img[a] > 1 {
					continue
				}
				for b := a + 1; b <= len(img); b++ {
					alt(fmt.Sprintf("cut anew at %d and %d", a, b), func(t *token.Token) {
						t.KeyID, t.Flag, t.Nonce, t.Owner = img[:a], img[a] == 1, img[a+1:b], img[b:]
					})
				}
			}
		}
	})
	// The keys a client knows, and the time.
	sub := [][]*signkeys.PublicKey{{}, {&k.PublicKey}, {&k2.PublicKey}, {&k3.PublicKey}, {&k.PublicKey, &k3.PublicKey}}
	for si, set := range sub {
		c := newClient(al, all, set...)
		for _, s := range list {
			do(fmt.Sprintf("%s for a client with keys %d", s.n, si), func() error {
				have := false
				for _, x := range set {
					have = have || x.KeyID == s.k.PublicKey.KeyID
				}
				b, err := s.t.Marshal()
				must(err)
				return verify(c, b, have, s.t, &s.k.PublicKey)
			})
		}
	}
	for _, at := range []int64{-1, 1, 1000} {
		for n, s := range list {
			do(fmt.Sprintf("%s %d s after its key expires", s.n, at), func() error {
				c := newClient(al, all, &s.k.PublicKey)
				clock.Freeze(s.k.PublicKey.Expire + at)
				defer clock.Freeze(now)
				b, err := s.t.Marshal()
				must(err)
				return verify(c, b, at < 0, s.t, &s.k.PublicKey)
			})
			_ = n
		}
	}
	// New tokens.
	for n := 0; n < 4; n++ {
		do(fmt.Sprintf("new tokens %d", n), func() error {
			a, b := token.New(&k.PublicKey.KeyID, al.Pub), token.New(&k.PublicKey.KeyID, al.Pub)
			x, y := token.New(&k.PublicKey.KeyID, nil), token.New(&k.PublicKey.KeyID, nil)
			if signed(a) == signed(b) || signed(x) == signed(y) || bytes.Equal(a.Nonce, b.Nonce) || bytes.Equal(a.Hash(), b.Hash()) {
				return vk.Badf("two new tokens are the same", "%s", signed(a))
			}
			if a.HasOwner() != true || x.HasOwner() != false || !bytes.Equal(a.Owner, al.Pub[:]) {
				return vk.Badf("token properties wrong", "%s", signed(a))
			}
			return nil
		})
	}
	do("new token without random numbers", func() error {
		token.Rand = bytes.NewReader(make([]byte, 10))
		defer func() { token.Rand = rand.Reader }()
		if t := token.New(&k.PublicKey.KeyID, al.Pub); t != nil {
			return vk.Badf("token made without random numbers", "%s", signed(t))
		}
		return nil
	})
}

// ---- requests

func requests() {
	al, bo := guardkit.NewPair(11), guardkit.NewPair(12)
	holders := []*guardkit.Pair{nil, &al, &bo}
	name := []string{"nobody", "alice", "bob"}
	key := func(p *guardkit.Pair) *[64]byte {
		if p == nil {
			return nil
		}
		return p.Priv
	}
	pub := func(p *guardkit.Pair) *[32]byte {
		if p == nil {
			return nil
		}
		return p.Pub
	}
	blobs := [][]byte{{}, {0}, []byte("token"), []byte("tokenblind"), bytes.Repeat([]byte{7}, 300)}
	type rc struct{ p types.ReissuePacket }
	content := func(p *types.ReissuePacket) string {
		return fmt.Sprintf("%d|%x|%x|%x", p.CallType, p.Token, p.BlindToken, p.Params)
	}
	var list []types.ReissuePacket
	for _, ct := range []int32{types.CallTypeReissue, types.CallTypeSpend, -1, 1 << 30} {
		for a := range blobs {
			for b := range blobs {
				for c := range blobs {
					if ct != types.CallTypeReissue && (a != b || b != c) {
						continue
					}
					list = append(list, types.ReissuePacket{CallType: ct, Token: blobs[a], BlindToken: blobs[b], Params: blobs[c]})
				}
			}
		}
	}
	// should tells whether a request signed by i verifies for holder j.
	judge := func(err error, i, j int, same bool) error {
		switch {
		case j == 0 && i == 0: // nobody's request needs no signature
			if err != nil {
				return vk.Badf("unowned request refused", "%v", err)
			}
		case i == j && same:
			if err != nil {
				return vk.Badf("genuine request refused", "%v", err)
			}
		default:
			if err == nil {
				return vk.Badf("altered request accepted", "signed by %s, verified for %s", name[i], name[j])
			}
		}
		return nil
	}
	each(len(list), func(n int) {
		p := list[n]
		for i, h := range holders {
			i, q := i, p
			q.Sign(key(h))
			enc, err := q.Marshal()
			must(err)
			desc := fmt.Sprintf("exchange request %d by %s", n, name[i])
			do(desc, func() error {
				d, err := new(types.ReissuePacket).Unmarshal(enc)
				if err != nil || content(d) != content(&p) || !bytes.Equal(d.Signature, q.Signature) {
					return vk.Badf("request changed by encoding", "%v", err)
				}
				if d.Hash() != q.Hash() || !bytes.Equal(d.Image(), q.Image()) {
					return vk.Badf("request hash changed by encoding", "")
				}
				for j, o := range holders {
					if err := judge(d.Verify(pub(o)), i, j, true); err != nil {
						return err
					}
				}
				return nil
			})
			for m := range list {
				if m == n || content(&list[m]) == content(&p) {
					continue
				}
				m := m
				later(fmt.Sprintf("%s with the content of %d", desc, m), func() error {
					x := list[m]
					x.Signature = q.Signature
					if x.Hash() == q.Hash() {
						return vk.Badf("two requests have the same hash", "%s and %s", content(&p), content(&x))
					}
					for j, o := range holders {
						if j == 0 && i == 0 {
							continue
						}
						if err := judge(x.Verify(pub(o)), i, j, false); err != nil {
							return err
						}
					}
					return nil
				})
			}
			if n%41 == 37 || r.Thorough() && n%5 == 2 {
				bytesOf(enc, n%41 == 37, func(what string, b []byte) {
					later(desc+" "+what, func() error {
						d, err := new(types.ReissuePacket).Unmarshal(b)
						if err != nil {
							return nil
						}
						same := content(d) == content(&p) && bytes.Equal(d.Signature, q.Signature)
						for j, o := range holders {
							err := d.Verify(pub(o))
							if j == 0 {
								if (err == nil) != (len(d.Signature) == 1) {
									return vk.Badf("signed request without a holder", "%v for a signature of %d bytes", err, len(d.Signature))
								}
								continue
							}
							if err := judge(err, i, j, same); err != nil {
								return err
							}
						}
						return nil
					})
				})
			}
		}
	})
	var sp []types.SpendPacket
	for _, ct := range []int32{types.CallTypeSpend, types.CallTypeReissue, -1} {
		for _, b := range blobs {
			sp = append(sp, types.SpendPacket{CallType: ct, Token: b})
		}
	}
	sc := func(p *types.SpendPacket) string { return fmt.Sprintf("%d|%x", p.CallType, p.Token) }
	for n := range sp {
		for i, h := range holders {
			n, i, q := n, i, sp[n]
			q.Sign(key(h))
			enc, err := q.Marshal()
			must(err)
			desc := fmt.Sprintf("spend request %d by %s", n, name[i])
			do(desc, func() error {
				d, err := new(types.SpendPacket).Unmarshal(enc)
				if err != nil || sc(d) != sc(&sp[n]) || !bytes.Equal(d.Signature, q.Signature) {
					return vk.Badf("request changed by encoding", "%v", err)
				}
				for j, o := range holders {
					if err := judge(d.Verify(pub(o)), i, j, true); err != nil {
						return err
					}
				}
				// A spend request is no exchange request and the other way round.
				for j, o := range holders {
					x := types.ReissuePacket{CallType: q.CallType, Token: q.Token, Signature: q.Signature}
					if j == 0 && i == 0 {
						continue
					}
					if err := judge(x.Verify(pub(o)), i, j, false); err != nil {
						return err
					}
				}
				return nil
			})
			for m := range sp {
				if m == n {
					continue
				}
				m := m
				later(fmt.Sprintf("%s with the content of %d", desc, m), func() error {
					x := sp[m]
					x.Signature = q.Signature
					for j, o := range holders {
						if j == 0 && i == 0 {
							continue
						}
						if err := judge(x.Verify(pub(o)), i, j, false); err != nil {
							return err
						}
					}
					return nil
				})
			}
			bytesOf(enc, n%5 == 2, func(what string, b []byte) {
				later(desc+" "+what, func() error {
					d, err := new(types.SpendPacket).Unmarshal(b)
					if err != nil {
						return nil
					}
					same := sc(d) == sc(&sp[n]) && bytes.Equal(d.Signature, q.Signature)
					for j, o := range holders {
						err := d.Verify(pub(o))
						if j == 0 {
							if (err == nil) != (len(d.Signature) == 1) {
								return vk.Badf("signed request without a holder", "%v for a signature of %d bytes", err, len(d.Signature))
							}
							continue
						}
						if err := judge(err, i, j, same); err != nil {
							return err
						}
					}
					return nil
				})
			})
		}
	}
	flush()
	// What is kept while an exchange is under way.
	do("kept exchange", func() error {
		p := types.ReissuePacketPrivate{PublicKey: []byte("pk"), Factors: []byte("f"), Token: []byte("t"), RequestHash: []byte("h"), Request: []byte("r"), CanReissue: true}
		b, err := p.Marshal()
		must(err)
		d, err := new(types.ReissuePacketPrivate).Unmarshal(b)
		if err != nil || !reflect.DeepEqual(*d, p) {
			return vk.Badf("kept exchange changed by encoding", "%v", err)
		}
		return nil
	})
}

// ---- exchanges

func exchanges() {
	is, other := guardkit.NewIssuer(1, "Message"), guardkit.NewIssuer(2, "Message")
	acc := guardkit.NewIssuer(1, "Account")
	al, bo := guardkit.NewPair(11), guardkit.NewPair(12)
	signers := []guardkit.Pair{is.Pair, other.Pair}
	k, k2, k3, ka := is.Key(life), is.Key(life), other.Key(life), acc.Key(life)
	fresh := func() *client.Client { return newClient(al, signers, &k.PublicKey) }
	holders := []*guardkit.Pair{nil, &al, &bo}
	type exch struct {
		toServer []byte
		local    *types.ReissuePacketPrivate
		params   []byte
		reply    []byte
		newOwner *guardkit.Pair
		c        *client.Client
	}
	var done []exch
	for i, old := range holders {
		for j, nw := range holders {
			for g, gk := range []*signkeys.KeyPair{k, k2, k3, ka} {
				for _, priv := range []*guardkit.Pair{old, nil} {
					if priv == nil && old == nil && g > 0 {
						continue
					}
					desc := fmt.Sprintf("exchange %d to %d under key %d key given %v", i, j, g, priv != nil)
					do(desc, func() error {
						var op, np *[32]byte
						var pk *[64]byte
						if old != nil {
							op = old.Pub
						}
						if nw != nil {
							np = nw.Pub
						}
						if priv != nil {
							pk = priv.Priv
						}
						src := is
						if gk == k3 {
							src = other
						} else if gk == ka {
							src = acc
						}
						oldT := is.IssueBytes(k, op)
						params := src.Params(gk, true)
						c := fresh()
						pc := packetClient(c)
						to, local, err := pc.Reissue(oldT, pk, np, params)
						should := (gk == k || gk == k2) && !(old != nil && priv == nil)
						if !should {
							if err == nil {
								return vk.Badf("exchange request made although key or parameters do not fit", "")
							}
							return nil
						}
						if err != nil {
							return vk.Badf("exchange request refused", "%v", err)
						}
						p, err := new(types.ReissuePacket).Unmarshal(to)
						if err != nil || p.CallType != types.CallTypeReissue || !bytes.Equal(p.Params, params) || !bytes.Equal(p.Token, oldT) {
							return vk.Badf("exchange request has other content", "%v", err)
						}
						if err := p.Verify(op); err != nil {
							return vk.Badf("own exchange request refused", "%v", err)
						}
						reply, _, err := is.Sign(p.Params, p.BlindToken)
						if err != nil {
							return vk.Badf("issuer cannot sign what was sent", "%v", err)
						}
						enc, err := pc.Unblind(local, reply)
						if err != nil {
							return vk.Badf("signed token refused", "%v", err)
						}
						t, err := token.Unmarshal(enc)
						if err != nil {
							return vk.Badf("new token does not decode", "%v", err)
						}
						if t.HasOwner() != (nw != nil) || nw != nil && !bytes.Equal(t.Owner, nw.Pub[:]) || !bytes.Equal(t.KeyID, gk.PublicKey.KeyID[:]) {
							return vk.Badf("new token has another owner or key", "%s", signed(t))
						}
						if bytes.Contains(to, t.Nonce) || bytes.Contains(to, t.Hash()) {
							return vk.Badf("issuer is shown the new token", "")
						}
						if err := verify(c, enc, true, t, &gk.PublicKey); err != nil {
							return err
						}
						if len(done) < 6 {
							done = append(done, exch{to, local, params, reply, nw, c})
						}
						r.Trace()
						return nil
					})
				}
			}
		}
	}
	// Replies altered: nothing but the token asked for comes out.
	each(len(done), func(n int) {
		e := done[n]
		pc := packetClient(e.c)
		desc := fmt.Sprintf("exchange %d", n)
		check := func(what string, reply []byte) {
			later(desc+" reply "+what, func() error {
				enc, err := pc.Unblind(e.local, reply)
				if err != nil {
					return nil
				}
				if _, err := e.c.Verify(enc); err != nil {
					return vk.Badf("exchange yields an invalid token", "%v", err)
				}
				return nil
			})
		}
		bytesOf(e.reply, n == 0 || r.Thorough(), check)
		for m := range done {
			if m != n {
				check(fmt.Sprintf("of exchange %d", m), done[m].reply)
			}
		}
		check("empty", nil)
		check("short", []byte{0x30, 0})
	})
	// Parameters altered: an error or a request, never a crash.
	base := is.Params(k2, true)
	oldT := is.IssueBytes(k, al.Pub)
	cl := fresh()
	bytesOf(base, r.Thorough(), func(what string, b []byte) {
		later("parameters "+what, func() error {
			pc := packetClient(cl)
			to, local, err := pc.Reissue(oldT, al.Priv, bo.Pub, b)
			if err != nil {
				return nil
			}
			p, err := new(types.ReissuePacket).Unmarshal(to)
			if err != nil || p.Verify(al.Pub) != nil || !bytes.Equal(p.Params, b) {
				return vk.Badf("exchange request has other content", "%v", err)
			}
			kk, err := new(signkeys.PublicKey).Unmarshal(local.PublicKey)
			if err != nil || keyContent(kk) != keyContent(&k2.PublicKey) {
				return vk.Badf("exchange under an altered key", "%v", err)
			}
			return nil
		})
	})
	flush()
	prm := elliptic.P256().Params()
	for pn, mut := range map[string]func(p *types.Params){
		"point 1 zero":      func(p *types.Params) { p.PublicParams.PointRs1 = *eccutil.ZeroPoint() },
		"point 2 zero":      func(p *types.Params) { p.PublicParams.PointRs2 = *eccutil.ZeroPoint() },
		"point 1 off curve": func(p *types.Params) { p.PublicParams.PointRs1 = *eccutil.NewPoint(big.NewInt(5), big.NewInt(5)) },
		"point 2 off curve": func(p *types.Params) { p.PublicParams.PointRs2 = *eccutil.NewPoint(big.NewInt(5), big.NewInt(5)) },
		"point 1 negative":  func(p *types.Params) { p.PublicParams.PointRs1 = *eccutil.NewPoint(big.NewInt(-5), big.NewInt(5)) },
		"point 1 huge": func(p *types.Params) {
			p.PublicParams.PointRs1 = *eccutil.NewPoint(new(big.Int).Lsh(prm.Gx, 900), prm.Gy)
		},
		"scalar zero":     func(p *types.Params) { p.PublicParams.ScalarLs1 = new(big.Int) },
		"scalar one":      func(p *types.Params) { p.PublicParams.ScalarLs2 = big.NewInt(1) },
		"scalar negative": func(p *types.Params) { p.PublicParams.ScalarLs2 = big.NewInt(-7) },
		"scalar order":    func(p *types.Params) { p.PublicParams.ScalarLs2 = prm.N },
		"scalar huge":     func(p *types.Params) { p.PublicParams.ScalarLs2 = new(big.Int).Lsh(prm.N, 2000) },
		"other scheme":    func(p *types.Params) { p.PublicParams.SchemeName = "x" },
		"other type":      func(p *types.Params) { p.PublicParams.DataType = 99 },
		"no key":          func(p *types.Params) { p.PublicKey = nil },
		"other issuer's": func(p *types.Params) {
			b, err := k3.PublicKey.Marshal()
			must(err)
			p.PublicKey = b
		},
	} {
		do("parameters with "+pn, func() error {
			p := new(types.Params)
			if _, err := asn1.Unmarshal(base, p); err != nil {
				return err
			}
			mut(p)
			b, err := p.Marshal()
			must(err)
			_, _, err = packetClient(fresh()).Reissue(oldT, al.Priv, bo.Pub, b)
			_ = err
			return nil
		})
	}
	// Spending.
	for i, h := range holders {
		do(fmt.Sprintf("spend by %d", i), func() error {
			var pk *[64]byte
			var pub *[32]byte
			if h != nil {
				pk, pub = h.Priv, h.Pub
			}
			b, err := packetClient(fresh()).Spend(oldT, pk)
			if err != nil {
				return err
			}
			p, err := new(types.SpendPacket).Unmarshal(b)
			if err != nil || p.CallType != types.CallTypeSpend || !bytes.Equal(p.Token, oldT) || p.Verify(pub) != nil {
				return vk.Badf("own spend request refused", "%v", err)
			}
			return nil
		})
	}
	_ = jjm.SchemeName
}

// ---- credentials

func credentials() {
	al, bo := guardkit.NewPair(11), guardkit.NewPair(12)
	counters := []uint64{0, 1, 2, 255, 256, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	for _, t := range []int64{now, 0, 3599, 3600, 1 << 33} {
		for _, c := range counters {
			do(fmt.Sprintf("credential %d at %d", c, t), func() error {
				clock.Freeze(t)
				if t == 0 {
					clock.Freeze(now)
				}
				at := uint64(t)
				if t == 0 {
					at = now
				}
				defer clock.Freeze(now)
				a, b := walletauth.CreateToken(al.Pub, al.Priv, c), walletauth.CreateToken(bo.Pub, bo.Priv, c)
				for _, x := range []struct {
					t walletauth.AuthToken
					p guardkit.Pair
				}{{a, al}, {b, bo}} {
					pk, lt, lc, err := x.t.CheckToken()
					if err != nil || *pk != *x.p.Pub || lt != at/walletauth.SkewWindow || lc != c {
						return vk.Badf("own credential refused or changed", "%v time %d counter %d", err, lt, lc)
					}
				}
				a2 := walletauth.CreateToken(al.Pub, al.Priv, c)
				if bytes.Equal(a, a2) || bytes.Equal(a.Hash(), a2.Hash()) || !bytes.Equal(a.Hash(), append(walletauth.AuthToken{}, a...).Hash()) {
					return vk.Badf("two credentials are the same", "%x", a)
				}
				return nil
			})
		}
	}
	tok := []walletauth.AuthToken{walletauth.CreateToken(al.Pub, al.Priv, 5), walletauth.CreateToken(bo.Pub, bo.Priv, 0x0102030405060708)}
	for i, t := range tok {
		n := i
		bytesOf(t, true, func(what string, b []byte) {
			later(fmt.Sprintf("credential %d %s", n, what), func() error {
				if _, _, _, err := walletauth.AuthToken(b).CheckToken(); err == nil {
					return vk.Badf("altered credential accepted", "%x", b)
				}
				return nil
			})
		})
		flush()
		for a := 0; a <= len(t); a += 8 {
			for b := a; b <= len(t); b += 8 {
				do(fmt.Sprintf("credential %d with bytes %d to %d of the other", i, a, b), func() error {
					x := append(walletauth.AuthToken{}, t...)
					copy(x[a:b], tok[1-i][a:b])
					_, _, _, err := x.CheckToken()
					if (err == nil) != (bytes.Equal(x, t) || bytes.Equal(x, tok[1-i])) {
						return vk.Badf("spliced credential accepted", "%v", err)
					}
					return nil
				})
			}
		}
	}
	for n := 0; n < 300; n++ {
		do(fmt.Sprintf("credential of %d zero bytes", n), func() error {
			if _, _, _, err := walletauth.AuthToken(make([]byte, n)).CheckToken(); err == nil && n != walletauth.TokenSize {
				return vk.Badf("altered credential accepted", "%d zero bytes", n)
			}
			return nil
		})
	}
	do("credential signed with another's key", func() error {
		if _, _, _, err := walletauth.CreateToken(al.Pub, bo.Priv, 1).CheckToken(); err == nil {
			return vk.Badf("altered credential accepted", "")
		}
		return nil
	})
	// Replay errors.
	full := "ErrReplay: 1"
	var texts []string
	for i := 0; i <= len(full); i++ {
		texts = append(texts, full[:i], full[i:], strings.Repeat("x", i), full[:i]+"x"+full[i:])
	}
	texts = append(texts, "connection refused", "ErrReplay", "ErrReplay: -1", "ErrReplay: 1.5", "ErrReplay: 99999999999999999999999", "ErrReplay:  1", "errreplay: 1")
	for _, c := range counters {
		texts = append(texts, fmt.Sprintf("ErrReplay: %d", c))
	}
	for _, s := range texts {
		do(fmt.Sprintf("server error %q", s), func() error {
			var want uint64
			replay := false
			in := errors.New(s)
			if strings.HasPrefix(s, "ErrReplay: ") {
				v, ok := new(big.Int).SetString(s[len("ErrReplay: "):], 10)
				if ok && v.Sign() >= 0 && v.IsUint64() && fmt.Sprint(v) == s[len("ErrReplay: "):] {
					replay, want = true, v.Uint64()
				} else if ok && v.Sign() >= 0 && v.IsUint64() {
					return nil // another way to write it
				}
			}
			c, err := walletauth.IsReplay(in)
			if replay && (err != walletauth.ErrReplay || c != want) {
				return vk.Badf("replay not recognised", "%q: %d, %v", s, c, err)
			}
			if !replay && (err == walletauth.ErrReplay || err == nil) {
				return vk.Badf("replay seen where there is none", "%q: %d, %v", s, c, err)
			}
			return nil
		})
	}
}

func main() {
	r = vk.Start("C20")
	clock.Freeze(now)
	r.Assume("P-256, SHA-256, Ed25519 and the blind signature scheme of the library used are sound; only alterations of genuine material are tried.")
	r.Assume("Whether a key or token is accepted in the very second its key expires is left open.")
	keys()
	tokens()
	requests()
	exchanges()
	credentials()
	r.Done()
}
