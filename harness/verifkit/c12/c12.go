// C12: key initialisation messages. Honest messages of several identities are
// altered in every element, recombined, forged with the identity's own key and
// presented at every time; each is decided by the real code and by an
// independent reference.
package main

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	"github.com/mutecomm/mute/verifkit/jsonmut"
)

var r *vk.R

const now = 1500000000

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

var seqs int

// seq is do for what is not distributed otherwise.
func seq(desc string, f func() error) {
	seqs++
	if vk.Mine(seqs) {
		do(desc, f)
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func raw(s string) ([]byte, bool) {
	b, err := base64.StdEncoding.DecodeString(s)
	return b, err == nil
}

func h512(b []byte) []byte { h := sha512.Sum512(b); return h[:] }

// user is an identity with a published key.
type user struct {
	id   string
	msg  *uid.Message
	ki   *uid.KeyInit
	hash string // of the published key
	pub  []byte // the published key
	uris []string
}

func newUser(id string) *user {
	u := &user{id: id}
	var err error
	u.msg, err = uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("c12"+id))
	must(err)
	domain := id[strings.Index(id, "@")+1:]
	u.uris = []string{domain}
	var priv string
	u.ki, u.hash, priv, err = u.msg.KeyInit(0, now+1000, now-1000, false, domain, "mix@"+domain, "nym<&>"+id, vk.NewRand("ki"+id))
	must(err)
	p, _ := raw(priv)
	u.pub = pubOf(p)
	return u
}

func pubOf(priv []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	must(err)
	return k.PublicKey().Bytes()
}

func (u *user) key() string   { return u.msg.SigPubKey() }
func (u *user) priv() []byte  { return u.msg.PrivateSigKey64()[:] }
func (u *user) sig32() []byte { return u.priv()[32:] }

// contents is what SIGNATURE covers.
func contents(ki *uid.KeyInit) string {
	b, err := json.Marshal(ki.Contents)
	must(err)
	return string(b)
}

func signed(ki *uid.KeyInit) []byte {
	m := jsonmut.Parse(ki.JSON())
	return jsonmut.Text(jsonmut.Get(m, ".Contents"))
}

type entry struct {
	CIPHERSUITE, FUNCTION, HASH, PUBKEY string
}

type anchor struct {
	MIXADDRESS, NYMADDRESS string
	PFKEYS                 []entry
}

// text is the canonical form of an anchor.
func (a *anchor) text() []byte {
	l := []interface{}{}
	for _, k := range a.PFKEYS {
		l = append(l, map[string]interface{}{"CIPHERSUITE": k.CIPHERSUITE, "FUNCTION": k.FUNCTION, "HASH": k.HASH, "PUBKEY": k.PUBKEY})
	}
	return jsonmut.Text(map[string]interface{}{"MIXADDRESS": a.MIXADDRESS, "NYMADDRESS": a.NYMADDRESS, "PFKEYS": l})
}

func crypt(key, iv, txt []byte) []byte {
	blk, err := aes.NewCipher(key)
	must(err)
	out := make([]byte, len(txt))
	stdcipher.NewCTR(blk, iv).XORKeyStream(out, txt)
	return out
}

// open is the reference for the session anchor.
func open(ki *uid.KeyInit, pub []byte) (*anchor, bool) {
	kh := h512(pub)
	if ki.Contents.SIGKEYHASH != b64(h512(kh)) {
		return nil, false
	}
	enc, ok := raw(ki.Contents.SESSIONANCHOR)
	if !ok || len(enc) < 16 {
		return nil, false
	}
	txt := crypt(kh[:32], enc[:16], enc[16:])
	var a anchor
	if json.Unmarshal(txt, &a) != nil {
		return nil, false
	}
	if ki.Contents.SESSIONANCHORHASH != b64(h512(a.text())) {
		return nil, false
	}
	return &a, true
}

// decide is the reference: the key a message proves, nil if it is to be
// refused.
func decide(ki *uid.KeyInit, uris []string, key string, t int64) []byte {
	pub, ok := raw(key)
	if !ok || len(pub) != 32 {
		return nil
	}
	ok = false
	for _, u := range uris {
		ok = ok || u == ki.Contents.REPOURI
	}
	a, ok2 := open(ki, pub)
	if !ok || !ok2 {
		return nil
	}
	c := ki.Contents
	if c.NOTBEFORE >= c.NOTAFTER || c.NOTAFTER < uint64(t) {
		return nil
	}
	s, ok := raw(ki.SIGNATURE)
	if !ok || !ed25519.Verify(pub, signed(ki), s) {
		return nil
	}
	for _, k := range a.PFKEYS {
		if k.FUNCTION == "ECDHE25519" {
			p, ok := raw(k.PUBKEY)
			h, ok2 := raw(k.HASH)
			if !ok || !ok2 || len(p) != 32 || !bytes.Equal(h, h512(p)) || k.CIPHERSUITE != uid.DefaultCiphersuite {
				return nil
			}
			return p
		}
	}
	return nil
}

// judge compares the code's decision with the reference's. ref, if not nil,
// is the honest message ki was made from.
func judge(ki *uid.KeyInit, uris []string, key string, t int64, ref *user) error {
	want := decide(ki, uris, key, t)
	err := ki.Verify(uris, key)
	if (err == nil) != (want != nil) {
		return vk.Badf("decision", "%v, should be accepted: %v", err, want != nil)
	}
	r.Outcome(fmt.Sprintf("accepted: %v", err == nil))
	if err == nil && ref != nil {
		if contents(ki) != contents(ref.ki) {
			return vk.Badf("decision", "an altered message is accepted: %s", ki.JSON())
		}
		if !bytes.Equal(want, ref.pub) {
			return vk.Badf("decision", "another key is accepted")
		}
	}
	ke, e2 := ki.KeyEntryECDHE25519(key)
	if err == nil {
		if e2 != nil {
			return vk.Badf("key", "accepted, but without key: %v", e2)
		}
		if !bytes.Equal(ke.PublicKey32()[:], want) || ke.HASH != b64(h512(want)) && !same(ke.HASH, b64(h512(want))) {
			return vk.Badf("key", "the key used is not the one accepted")
		}
	}
	sa, e3 := ki.SessionAnchor(key)
	pub, _ := raw(key)
	a, ok := open(ki, pub)
	if (e3 == nil) != ok {
		return vk.Badf("anchor", "%v, should be accepted: %v", e3, ok)
	}
	if ok && (sa.MIXADDRESS != a.MIXADDRESS || sa.NymAddress() != a.NYMADDRESS || len(sa.PFKEYS) != len(a.PFKEYS)) {
		return vk.Badf("anchor", "%v, want %v", sa, a)
	}
	if (ki.Check() == nil) != (ki.Contents.VERSION == "1.0" && ki.Contents.MSGCOUNT == 0) {
		return vk.Badf("rules", "Check: %v: version %q count %d", ki.Check(), ki.Contents.VERSION, ki.Contents.MSGCOUNT)
	}
	return nil
}

func same(a, b string) bool {
	x, ok := raw(a)
	y, ok2 := raw(b)
	return ok && ok2 && bytes.Equal(x, y)
}

func parse(b []byte) *uid.KeyInit {
	k, err := uid.NewJSONKeyInit(b)
	must(err)
	return k
}

func honest(u *user) error {
	r.State(u.id)
	for _, ki := range []*uid.KeyInit{u.ki, parse(u.ki.JSON())} {
		if err := ki.Verify(u.uris, u.key()); err != nil {
			return vk.Badf("honest", "%v", err)
		}
		if err := ki.Check(); err != nil {
			return vk.Badf("honest", "%v", err)
		}
		if err := judge(ki, u.uris, u.key(), now, u); err != nil {
			return err
		}
		sh, err := u.msg.SigKeyHash()
		if err != nil || ki.SigKeyHash() != sh || ki.MsgCount() != 0 {
			return vk.Badf("honest", "SigKeyHash")
		}
		a, ok := open(ki, u.sig32())
		d := u.uris[0]
		if !ok || a.MIXADDRESS != "mix@"+d || a.NYMADDRESS != "nym<&>"+u.id || len(a.PFKEYS) != 1 || a.PFKEYS[0].HASH != u.hash {
			return vk.Badf("honest", "anchor %v", a)
		}
		c := ki.Contents
		if c.VERSION != "1.0" || c.NOTAFTER != now+1000 || c.NOTBEFORE != now-1000 || c.FALLBACK || c.REPOURI != d {
			return vk.Badf("honest", "%s", ki.JSON())
		}
		if !bytes.Equal(ki.JSON(), u.ki.JSON()) {
			return vk.Badf("coding", "changes when encoded and decoded")
		}
	}
	return nil
}

// created enumerates the arguments of making a message.
func created(u *user) {
	day := uint64(24 * 3600)
	na := []uint64{0, 1, now - 1, now, now + 1, now + 90*day - 1, now + 90*day, now + 90*day + 1, now + 91*day, math.MaxInt64, math.MaxUint64}
	nb := []uint64{0, 1, now - 1, now, now + 1, now + 90*day - 1, now + 90*day, now + 90*day + 1, math.MaxUint64 - 1, math.MaxUint64}
	for _, cnt := range []uint64{0, 1, math.MaxUint64} {
		for _, fb := range []bool{false, true} {
			for _, repo := range []string{u.uris[0], "", "example.net"} {
				for _, a := range na {
					for _, b := range nb {
						desc := fmt.Sprintf("create %d %v %q %d %d", cnt, fb, repo, a, b)
						seq(desc, func() error {
							ki, hash, priv, err := u.msg.KeyInit(cnt, a, b, fb, repo, "mix", "nym", vk.NewRand(desc))
							ok := b < a && a >= now && a <= now+90*day && repo == u.uris[0]
							if (err == nil) != ok {
								return vk.Badf("create", "%v, should be made: %v", err, ok)
							}
							if err != nil {
								return nil
							}
							r.Trace()
							c := ki.Contents
							if c.MSGCOUNT != cnt || c.FALLBACK != fb || c.NOTAFTER != a || c.NOTBEFORE != b {
								return vk.Badf("create", "%s", ki.JSON())
							}
							an, ok := open(ki, u.sig32())
							if !ok || an.PFKEYS[0].HASH != hash || an.MIXADDRESS != "mix" || an.NYMADDRESS != "nym" {
								return vk.Badf("create", "the anchor has another key")
							}
							ke, err := ki.KeyEntryECDHE25519(u.key())
							if err != nil {
								return vk.Badf("create", "%v", err)
							}
							if err := ke.SetPrivateKey(priv); err != nil {
								return vk.Badf("create", "%v", err)
							}
							p, _ := raw(priv)
							if !bytes.Equal(pubOf(p), ke.PublicKey32()[:]) {
								return vk.Badf("create", "the private key does not belong to the public one")
							}
							return judge(ki, u.uris, u.key(), now, nil)
						})
					}
				}
			}
		}
	}
}

// forge makes a message with the given anchor text, signed by u.
func (u *user) forge(txt []byte, change func(c *uid.KeyInit)) *uid.KeyInit {
	ki := parse(u.ki.JSON())
	kh := h512(u.sig32())
	iv := make([]byte, 16)
	vk.NewRand("iv").Read(iv)
	ki.Contents.SESSIONANCHOR = b64(append(iv, crypt(kh[:32], iv, txt)...))
	var a anchor
	if json.Unmarshal(txt, &a) == nil {
		ki.Contents.SESSIONANCHORHASH = b64(h512(a.text()))
	} else {
		ki.Contents.SESSIONANCHORHASH = b64(h512(txt))
	}
	if change != nil {
		change(ki)
	}
	ki.SIGNATURE = b64(ed25519.Sign(u.priv(), signed(ki)))
	return ki
}

// forged enumerates messages an identity signs although they are wrong.
func forged(u, v *user) {
	a, _ := open(u.ki, u.sig32())
	good := a.PFKEYS[0]
	k32 := bytes.Repeat([]byte{9}, 32)
	keys := []entry{good}
	for _, s := range []string{"", "NACL", good.CIPHERSUITE + " "} {
		keys = append(keys, entry{s, good.FUNCTION, good.HASH, good.PUBKEY})
	}
	for _, f := range []string{"", "ED25519", "ecdhe25519", "ECDHE25519 "} {
		keys = append(keys, entry{good.CIPHERSUITE, f, good.HASH, good.PUBKEY})
	}
	for _, n := range []int{0, 1, 31, 33, 64} {
		p := make([]byte, n)
		keys = append(keys, entry{good.CIPHERSUITE, good.FUNCTION, b64(h512(p)), b64(p)}, entry{good.CIPHERSUITE, good.FUNCTION, b64(p), good.PUBKEY})
	}
	keys = append(keys, entry{good.CIPHERSUITE, good.FUNCTION, good.HASH, b64(k32)}, entry{good.CIPHERSUITE, good.FUNCTION, b64(h512(k32)), b64(k32)},
		entry{good.CIPHERSUITE, good.FUNCTION, "?", good.PUBKEY}, entry{good.CIPHERSUITE, good.FUNCTION, good.HASH, "?"}, entry{})
	list := [][]entry{nil, {}}
	for i := range keys {
		list = append(list, []entry{keys[i]})
		for j := range keys {
			list = append(list, []entry{keys[i], keys[j]})
		}
	}
	r.Parallel(len(list), func(i int) {
		x := *a
		x.PFKEYS = list[i]
		do(fmt.Sprintf("forged keys %v", list[i]), func() error {
			return judge(u.forge(x.text(), nil), u.uris, u.key(), now, nil)
		})
	})
	// anchor texts that are no anchors
	for _, t := range []string{"", "x", "{", "{}", "null", "[]", "7", "\"x\"", `{"PFKEYS":null}`, `{"PFKEYS":[null]}`, `{"PFKEYS":{}}`, string(a.text()) + " ", string(a.text()[:50]), "\xff\xfe"} {
		seq(fmt.Sprintf("anchor text %q", t), func() error {
			return judge(u.forge([]byte(t), nil), u.uris, u.key(), now, nil)
		})
	}
	muts := append(jsonmut.All(a.text(), r.Thorough()), jsonmut.Raw(a.text())...)
	r.Parallel(len(muts), func(i int) {
		for k := 0; k < 2; k++ {
			do(fmt.Sprintf("anchor %s %s hash=%d", muts[i].Path, muts[i].What, k), func() error {
				return judge(u.forge(muts[i].Doc, func(c *uid.KeyInit) {
					if k == 1 {
						c.Contents.SESSIONANCHORHASH = u.ki.Contents.SESSIONANCHORHASH
					}
				}), u.uris, u.key(), now, nil)
			})
		}
	})
	// every length of the encrypted anchor
	enc, _ := raw(u.ki.Contents.SESSIONANCHOR)
	for n := 0; n <= len(enc); n++ {
		seq(fmt.Sprintf("anchor of %d bytes", n), func() error {
			ki := parse(u.ki.JSON())
			ki.Contents.SESSIONANCHOR = b64(enc[:n])
			if err := judge(ki, u.uris, u.key(), now, u); err != nil {
				return err
			}
			ki.SIGNATURE = b64(ed25519.Sign(u.priv(), signed(ki)))
			return judge(ki, u.uris, u.key(), now, nil)
		})
	}
	// times
	ts := []uint64{0, 1, now - 2, now - 1, now, now + 1, now + 2, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64}
	for _, nb := range ts {
		for _, na := range ts {
			seq(fmt.Sprintf("times %d to %d", nb, na), func() error {
				return judge(u.forge(a.text(), func(c *uid.KeyInit) { c.Contents.NOTBEFORE, c.Contents.NOTAFTER = nb, na }), u.uris, u.key(), now, nil)
			})
		}
	}
	// other fields
	sh, _ := v.msg.SigKeyHash()
	h, _ := uid.SigKeyHash(u.key())
	for _, s := range []string{"", "x", sh, h, u.key()} {
		seq("key hash "+s, func() error {
			return judge(u.forge(a.text(), func(c *uid.KeyInit) { c.Contents.SIGKEYHASH = s }), u.uris, u.key(), now, nil)
		})
	}
	for _, repo := range []string{"", "mute.one", "Mute.one", "mute.one ", "example.com", "one"} {
		for _, uris := range [][]string{nil, {}, {""}, {"mute.one"}, {"example.com"}, {"example.com", "mute.one"}, {"mute.one", "example.com"}} {
			seq(fmt.Sprintf("repo %q of %q", repo, uris), func() error {
				return judge(u.forge(a.text(), func(c *uid.KeyInit) { c.Contents.REPOURI = repo }), uris, u.key(), now, nil)
			})
		}
	}
	for _, ver := range []string{"", "1.0", "1.1", "1.0 ", "2.0"} {
		for _, cnt := range []uint64{0, 1, math.MaxUint64} {
			seq(fmt.Sprintf("version %q count %d", ver, cnt), func() error {
				return judge(u.forge(a.text(), func(c *uid.KeyInit) { c.Contents.VERSION, c.Contents.MSGCOUNT = ver, cnt }), u.uris, u.key(), now, nil)
			})
		}
	}
}

// clocks presents an honest message at times around its bounds.
func clocks(u *user) {
	var ts []int64
	for _, b := range []int64{now - 1000, now + 1000, now} {
		for d := int64(-3); d <= 3; d++ {
			ts = append(ts, b+d)
		}
	}
	ts = append(ts, 1, now-1000000, now+1000000, math.MaxInt32, 1<<33)
	for _, t := range ts {
		clock.Freeze(t)
		seq(fmt.Sprintf("at time %d", t), func() error {
			r.Trans()
			err := u.ki.Verify(u.uris, u.key())
			if t >= now-1000 && t < now+1000 && err != nil {
				return vk.Badf("time", "refused within its validity: %v", err)
			}
			if t > now+1000 && err == nil {
				return vk.Badf("time", "accepted after its validity")
			}
			return judge(u.ki, u.uris, u.key(), t, u)
		})
	}
	clock.Freeze(now)
}

func main() {
	r = vk.Start("C12")
	r.Fork()
	clock.Freeze(now)
	r.Assume("Ed25519, Curve25519, AES and SHA-512 are not broken")
	r.Assume("a key published ahead of its NOTBEFORE time is accepted, as in the specification of the repository")
	var us []*user
	for _, id := range []string{"alice@mute.one", "bob@mute.one", "carol@example.com"} {
		us = append(us, newUser(id))
	}
	for _, u := range us {
		seq("honest "+u.id, func() error { return honest(u) })
		clocks(u)
	}
	created(us[0])
	forged(us[0], us[1])
	// all identities' messages under all keys and repositories
	keys := []string{"", "x", us[0].key()[:20], b64(make([]byte, 31)), b64(make([]byte, 33)), b64(make([]byte, 32)), us[0].hash}
	for _, u := range us {
		keys = append(keys, u.key())
	}
	for _, u := range us {
		for _, k := range keys {
			for _, uris := range [][]string{{"mute.one"}, {"example.com"}, {"mute.one", "example.com"}, nil} {
				seq(fmt.Sprintf("%s under %.12s at %v", u.id, k, uris), func() error {
					if k != u.key() && u.ki.Verify(uris, k) == nil {
						return vk.Badf("decision", "accepted for another identity")
					}
					return judge(u.ki, uris, k, now, u)
				})
			}
		}
	}
	// recombined elements
	paths := []string{".Contents.SIGKEYHASH", ".Contents.SESSIONANCHOR", ".Contents.SESSIONANCHORHASH", ".Contents.REPOURI", ".SIGNATURE"}
	second, _, _, err := us[0].msg.KeyInit(0, now+500, now-1, true, "mute.one", "mix", "nym", vk.NewRand("second"))
	must(err)
	for i, y := range []*uid.KeyInit{us[1].ki, us[2].ki, second} {
		X, Y := jsonmut.Parse(us[0].ki.JSON()), jsonmut.Parse(y.JSON())
		for mask := 0; mask < 1<<uint(len(paths)); mask++ {
			v := X
			for j, p := range paths {
				if mask>>uint(j)&1 == 1 {
					v = jsonmut.Set(v, p, jsonmut.Get(Y, p))
				}
			}
			ki := parse(jsonmut.Text(v))
			for _, u := range us {
				seq(fmt.Sprintf("splice %d %#x for %s", i, mask, u.id), func() error {
					uris := []string{"mute.one", "example.com"}
					if ki.Verify(uris, u.key()) == nil {
						c := contents(ki)
						if c != contents(u.ki) && (u != us[0] || c != contents(second)) {
							return vk.Badf("decision", "a recombined message is accepted: %s", ki.JSON())
						}
					}
					return judge(ki, uris, u.key(), now, nil)
				})
			}
		}
	}
	// server signatures
	srv, err := cipher.Ed25519Generate(vk.NewRand("srv"))
	must(err)
	spub := b64(srv.PublicKey()[:])
	ssig := us[0].ki.Sign(srv)
	ref := jsonmut.Text(jsonmut.Parse(us[0].ki.JSON()))
	n := 1
	if r.Thorough() {
		n = 3
	}
	for w := 0; w < n; w++ {
		u := us[w]
		doc := u.ki.JSON()
		muts := append(jsonmut.All(doc, true), jsonmut.Raw(doc)...)
		r.Parallel(len(muts), func(i int) {
			do(u.id+" "+muts[i].Path+" "+muts[i].What, func() error {
				ki, err := uid.NewJSONKeyInit(muts[i].Doc)
				if err != nil {
					return nil
				}
				if w == 0 {
					err := ki.VerifySrvSig(ssig, spub)
					if same := bytes.Equal(jsonmut.Text(jsonmut.Parse(ki.JSON())), ref); (err == nil) != same {
						return vk.Badf("server signature", "%v, unaltered: %v", err, same)
					}
				}
				return judge(ki, u.uris, u.key(), now, u)
			})
		})
	}
	s, _ := raw(ssig)
	for i := 0; i < len(s)*8; i++ {
		seq(fmt.Sprintf("server signature bit %d", i), func() error {
			c := append([]byte(nil), s...)
			c[i/8] ^= 1 << uint(i%8)
			if us[0].ki.VerifySrvSig(b64(c), spub) == nil || us[0].ki.VerifySrvSig(b64(s[:i/8]), spub) == nil {
				return vk.Badf("server signature", "an altered signature is accepted")
			}
			return nil
		})
	}
	for _, k := range append(keys, spub) {
		seq("server key "+k, func() error {
			if (us[0].ki.VerifySrvSig(ssig, k) == nil) != (k == spub) {
				return vk.Badf("server signature", "under key %q", k)
			}
			return nil
		})
	}
	engine()
	if r.Expired() {
		r.Cap("deadline")
	}
	r.Done()
}
