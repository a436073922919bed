// C11: identity messages. Every element of honest messages, updates and
// replies is altered in many ways, messages are recombined, forged and signed
// by their owners against the rules; each is verified by the real code and by
// an independent reference.
package main

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	"github.com/mutecomm/mute/verifkit/jsonmut"
)

var r *vk.R

const now = 1500000000

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// content is the canonical text of the fields a message's signatures cover,
// made without the code under test.
func content(m *uid.Message) string {
	b, err := json.Marshal(m.UIDContent)
	must(err)
	return string(b)
}

func full(m *uid.Message) string {
	b, err := json.Marshal(m)
	must(err)
	return string(b)
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func raw(s string) ([]byte, bool) {
	b, err := base64.StdEncoding.DecodeString(s)
	return b, err == nil
}

func same(a, b string) bool {
	x, ok := raw(a)
	y, ok2 := raw(b)
	return ok && ok2 && bytes.Equal(x, y)
}

type variant struct {
	id     string
	escrow bool
	mix    string
	nym    string
	pfs    uid.PFSPreference
	last   string
}

func (v variant) String() string {
	l := v.last
	if len(l) > 8 {
		l = l[:8]
	}
	return fmt.Sprintf("%s escrow=%v mix=%q nym=%q %s last=%q", v.id, v.escrow, v.mix, v.nym, v.pfs, l)
}

func (v variant) make(seed string) (*uid.Message, error) {
	return uid.Create(v.id, v.escrow, v.mix, v.nym, v.pfs, v.last, vk.NewRand(v.String()+seed))
}

func variants() []variant {
	var out []variant
	other := make([]byte, hashchain.EntryByteLen)
	for i := range other {
		other[i] = byte(i)
	}
	other[32] = 1
	for _, id := range []string{"alice@mute.one", "b.c@example.com", "keyserver@mute.one", "xyz@ab.c.org"} {
		for _, esc := range []bool{false, true} {
			for _, p := range []uid.PFSPreference{uid.Mandatory, uid.Strict, uid.Optional} {
				for _, mn := range [][2]string{{"", ""}, {"mix@mute.one", "nym<&>\u2028\"\\"}} {
					for _, l := range []string{hashchain.TestEntry, b64(other), ""} {
						out = append(out, variant{id, esc, mn[0], mn[1], p, l})
					}
				}
			}
		}
	}
	return out
}

func honest(v variant) error {
	m, err := v.make("")
	if v.last == "" && !strings.HasPrefix(v.id, "keyserver@") {
		if err == nil {
			return vk.Badf("create", "identity message without a last entry")
		}
		return nil
	}
	if err != nil {
		return vk.Badf("create", "%v", err)
	}
	r.State(v.String())
	c := m.UIDContent
	want := func(what string, a, b interface{}) error {
		if !reflect.DeepEqual(a, b) {
			return vk.Badf("create", "%s is %v, want %v", what, a, b)
		}
		return nil
	}
	mix, nym := "", ""
	if v.pfs == uid.Optional {
		mix, nym = v.mix, v.nym
	}
	for _, e := range []error{
		want("VERSION", c.VERSION, "1.0"), want("MSGCOUNT", c.MSGCOUNT, uint64(0)), want("IDENTITY", c.IDENTITY, v.id),
		want("Identity()", m.Identity(), v.id), want("Localpart()+Domain()", m.Localpart()+"@"+m.Domain(), v.id),
		want("MIXADDRESS", c.MIXADDRESS, mix), want("NYMADDRESS", c.NYMADDRESS, nym), want("LASTENTRY", c.LASTENTRY, v.last),
		want("FORWARDSEC", c.PREFERENCES.FORWARDSEC, v.pfs.String()), want("keys", len(c.PUBKEYS), 1),
		want("REPOURIS", c.REPOURIS, []string{v.id[strings.Index(v.id, "@")+1:]}),
	} {
		if e != nil {
			return e
		}
	}
	if c.NOTAFTER <= now {
		return vk.Badf("create", "expired at once: %d", c.NOTAFTER)
	}
	if err := m.VerifySelfSig(); err != nil {
		return vk.Badf("honest message", "%v", err)
	}
	if err := m.Check(); v.pfs == uid.Strict && !v.escrow && err != nil {
		return vk.Badf("honest message", "Check: %v", err)
	} else if v.pfs != uid.Strict || v.escrow {
		if err == nil {
			return vk.Badf("rules", "a message against the rules of version 1.0 passes")
		}
	}
	// coding
	n, err := uid.NewJSON(string(m.JSON()))
	if err != nil || full(n) != full(m) || !bytes.Equal(n.JSON(), m.JSON()) {
		return vk.Badf("coding", "the message changes when encoded and decoded: %v", err)
	}
	if err := n.VerifySelfSig(); err != nil {
		return vk.Badf("coding", "decoded message: %v", err)
	}
	// the keys
	if err := n.SetPrivateSigKey(m.PrivateSigKey()); err != nil {
		return vk.Badf("keys", "%v", err)
	}
	if err := n.SetPrivateEncKey(m.PrivateEncKey()); err != nil {
		return vk.Badf("keys", "%v", err)
	}
	if *n.PrivateSigKey64() != *m.PrivateSigKey64() || *n.PrivateEncKey32() != *m.PrivateEncKey32() ||
		*n.PublicSigKey32() != *m.PublicSigKey32() || *n.PublicEncKey32() != *m.PublicEncKey32() {
		return vk.Badf("keys", "keys change when the message is decoded")
	}
	pub := m.PrivateSigKey64()[32:]
	if b, ok := raw(c.SIGKEY.PUBKEY); !ok || !bytes.Equal(b, pub) || m.SigPubKey() != c.SIGKEY.PUBKEY || !bytes.Equal(m.PublicSigKey32()[:], pub) {
		return vk.Badf("keys", "public signature key %q, private key's %x", c.SIGKEY.PUBKEY, pub)
	}
	h := sha512.Sum512(pub)
	hh := sha512.Sum512(h[:])
	if c.SIGKEY.HASH != b64(h[:]) {
		return vk.Badf("keys", "hash of the signature key")
	}
	if s, err := m.SigKeyHash(); err != nil || s != b64(hh[:]) {
		return vk.Badf("keys", "SigKeyHash %q %v", s, err)
	}
	if s, err := uid.SigKeyHash(c.SIGKEY.PUBKEY); err != nil || s != b64(h[:]) {
		return vk.Badf("keys", "SigKeyHash of the key %q %v", s, err)
	}
	pk, err := m.PublicKey()
	if err != nil || *pk != *m.PublicEncKey32() || b64(pk[:]) != c.PUBKEYS[0].PUBKEY {
		return vk.Badf("keys", "encryption key")
	}
	eh := sha512.Sum512(pk[:])
	if m.PubHash() != b64(eh[:]) {
		return vk.Badf("keys", "hash of the encryption key")
	}
	// another one has other keys
	o, err := v.make("other")
	if err != nil || *o.PrivateSigKey64() == *m.PrivateSigKey64() || *o.PrivateEncKey32() == *m.PrivateEncKey32() {
		return vk.Badf("keys", "the keys do not depend on the randomness")
	}
	return encryption(m)
}

// encryption checks the encrypted form against its description.
func encryption(m *uid.Message) error {
	hash, index, text := m.Encrypt()
	if h := sha256.Sum256(m.JSON()); !bytes.Equal(h[:], hash) {
		return vk.Badf("encryption", "UIDHash is not the hash of the message")
	}
	if h := sha256.Sum256(hash); !bytes.Equal(h[:], index) {
		return vk.Badf("encryption", "UIDIndex is not the hash of UIDHash")
	}
	enc, ok := raw(text)
	if !ok || len(enc) < 48 || !bytes.Equal(enc[:32], index) {
		return vk.Badf("encryption", "the encrypted message does not start with UIDIndex")
	}
	blk, err := aes.NewCipher(hash)
	must(err)
	out := make([]byte, len(enc)-48)
	stdcipher.NewCTR(blk, enc[32:48]).XORKeyStream(out, enc[48:])
	if !bytes.Equal(out, m.JSON()) {
		return vk.Badf("encryption", "does not decrypt to the message")
	}
	if _, _, again := m.Encrypt(); again == text {
		return vk.Badf("encryption", "a nonce is used twice")
	}
	rep := &uid.MessageReply{}
	rep.ENTRY.UIDMESSAGEENCRYPTED = text
	idx, n, err := rep.Decrypt(hash)
	if err != nil || !bytes.Equal(idx, index) || full(n) != full(m) {
		return vk.Badf("encryption", "the message changes when encrypted and decrypted: %v", err)
	}
	return nil
}

// judge runs all verifications on a message which may be altered. ref is an
// honest message and prev its predecessor (nil if none).
func judge(m, ref, prev *uid.Message) error {
	same_ := content(m) == content(ref)
	self := m.VerifySelfSig()
	if self == nil {
		k, ok := raw(m.UIDContent.SIGKEY.PUBKEY)
		s, ok2 := raw(m.SELFSIGNATURE)
		if !ok || !ok2 || len(k) != 32 || !ed25519.Verify(k, m.UIDContent.JSON(), s) {
			return vk.Badf("self-signature", "an invalid self-signature is accepted")
		}
	}
	if self == nil && !same_ {
		return vk.Badf("self-signature", "an altered message keeps its self-signature: %s", m.JSON())
	}
	if self == nil && !same(m.SELFSIGNATURE, ref.SELFSIGNATURE) {
		return vk.Badf("self-signature", "an altered self-signature is accepted")
	}
	if self != nil && same_ && m.SELFSIGNATURE == ref.SELFSIGNATURE {
		return vk.Badf("self-signature", "refused without alteration: %v", self)
	}
	if prev != nil {
		up := m.VerifyUserSig(prev)
		if up == nil && (!same_ || !same(m.USERSIGNATURE, ref.USERSIGNATURE)) {
			return vk.Badf("update signature", "an altered update is accepted: %s", m.JSON())
		}
		if up != nil && same_ && m.USERSIGNATURE == ref.USERSIGNATURE {
			return vk.Badf("update signature", "refused without alteration: %v", up)
		}
	}
	if m.Check() == nil {
		// whatever passes can be used
		m.Localpart()
		m.Domain()
		m.PubHash()
		if _, err := m.PublicKey(); err != nil {
			return vk.Badf("check", "passes without an encryption key: %v", err)
		}
		m.PublicSigKey32()
		m.PublicEncKey32()
		if _, err := m.SigKeyHash(); err != nil {
			return vk.Badf("check", "passes without a signature key: %v", err)
		}
	} else if full(m) == full(ref) {
		return vk.Badf("check", "an honest message fails: %v", m.Check())
	}
	return nil
}

func altered(name string, ref, prev *uid.Message, all bool) {
	doc := ref.JSON()
	muts := jsonmut.All(doc, all)
	muts = append(muts, jsonmut.Raw(doc)...)
	r.Parallel((len(muts)+63)/64, func(b int) {
		for _, mu := range muts[b*64 : min(len(muts), b*64+64)] {
			desc := name + " " + mu.Path + " " + mu.What
			doc := mu.Doc
			do(desc, func() error {
				m, err := uid.NewJSON(string(doc))
				if err != nil {
					return nil
				}
				return judge(m, ref, prev)
			})
		}
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// splices recombines the elements of two identities' messages.
func splices() {
	mk := func(id, seed string) (*uid.Message, *uid.Message) {
		m, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("splice"+seed))
		must(err)
		u, err := m.Update(vk.NewRand("splice up" + seed))
		must(err)
		return m, u
	}
	a0, a1 := mk("alice@mute.one", "a")
	b0, b1 := mk("bob@mute.one", "b")
	paths := []string{".UIDContent.IDENTITY", ".UIDContent.MSGCOUNT", ".UIDContent.SIGKEY.PUBKEY", ".UIDContent.SIGKEY.HASH",
		".UIDContent.PUBKEYS.0.PUBKEY", ".UIDContent.PUBKEYS.0.HASH", ".SELFSIGNATURE", ".USERSIGNATURE", ".ESCROWSIGNATURE"}
	type src struct {
		name string
		x, y *uid.Message
		prev *uid.Message
	}
	list := []src{{"a1/b1", a1, b1, a0}, {"a1/a0", a1, a0, a0}, {"b1/a1", b1, a1, b0}, {"a0/b0", a0, b0, nil}, {"b0/b1", b0, b1, nil}}
	for _, s := range list {
		s := s
		X, Y := jsonmut.Parse(s.x.JSON()), jsonmut.Parse(s.y.JSON())
		r.Parallel(1<<uint(len(paths)), func(mask int) {
			v := X
			for i, p := range paths {
				if mask>>uint(i)&1 == 1 {
					v = jsonmut.Set(v, p, jsonmut.Get(Y, p))
				}
			}
			doc := string(jsonmut.Text(v))
			do(fmt.Sprintf("splice %s %#x", s.name, mask), func() error {
				m, err := uid.NewJSON(doc)
				if err != nil {
					return vk.Badf("coding", "%v", err)
				}
				ref := s.x
				if content(m) == content(s.y) {
					ref = s.y
				}
				prev := s.prev
				if ref == s.y && prev != nil {
					// the update signature is then decided by pairs()
					prev = nil
				}
				return judge(m, ref, prev)
			})
		})
	}
}

// pairs decides every pair of messages of forked histories of two identities.
func pairs() {
	type msg struct {
		name string
		m    *uid.Message
		prev string
	}
	var all []msg
	depth := r.Pick(3, 5)
	for _, id := range []string{"alice@mute.one", "bob@mute.one"} {
		m, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("pair"+id))
		must(err)
		level := []msg{{id, m, ""}}
		all = append(all, level[0])
		for d := 0; d < depth; d++ {
			var next []msg
			for _, p := range level {
				for f := 0; f < 2; f++ {
					before := full(p.m)
					key := *p.m.PrivateSigKey64()
					n := fmt.Sprintf("%s.%d", p.name, f)
					u, err := p.m.Update(vk.NewRand(n))
					must(err)
					do("update "+n, func() error {
						if full(p.m) != before || *p.m.PrivateSigKey64() != key {
							return vk.Badf("update", "changes the message it updates")
						}
						if u.UIDContent.MSGCOUNT != uint64(d+1) || *u.PrivateSigKey64() == key || u.Identity() != id {
							return vk.Badf("update", "%s", u.JSON())
						}
						if *u.PrivateEncKey32() != *p.m.PrivateEncKey32() {
							return vk.Badf("update", "the encryption key changes")
						}
						if err := u.Check(); err != nil {
							return vk.Badf("update", "%v", err)
						}
						if err := u.VerifySelfSig(); err != nil {
							return vk.Badf("update", "%v", err)
						}
						if err := encryption(u); err != nil {
							return err
						}
						// everything but counter and signature key stays
						w := jsonmut.Parse(p.m.JSON())
						g := jsonmut.Parse(u.JSON())
						for _, q := range []string{".UIDContent.MSGCOUNT", ".UIDContent.SIGKEY", ".SELFSIGNATURE", ".USERSIGNATURE"} {
							w, g = jsonmut.Set(w, q, nil), jsonmut.Set(g, q, nil)
						}
						if !reflect.DeepEqual(w, g) {
							return vk.Badf("update", "other fields change: %s", u.JSON())
						}
						return nil
					})
					next = append(next, msg{n, u, p.name})
				}
			}
			all = append(all, next...)
			level = next
		}
	}
	r.Parallel(len(all), func(i int) {
		for j := range all {
			u, p := all[i], all[j]
			do("pair "+u.name+" after "+p.name, func() error {
				r.Trans()
				// decoded copies, as received
				m, err := uid.NewJSON(string(u.m.JSON()))
				must(err)
				pm, err := uid.NewJSON(string(p.m.JSON()))
				must(err)
				err = m.VerifyUserSig(pm)
				if (err == nil) != (u.prev == p.name) {
					return vk.Badf("update signature", "%s after %s: %v", u.name, p.name, err)
				}
				return nil
			})
			// the signature of p's key on u's content with every counter
			for _, cnt := range []uint64{0, 1, 2, 3, p.m.UIDContent.MSGCOUNT, p.m.UIDContent.MSGCOUNT + 1, p.m.UIDContent.MSGCOUNT + 2, math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1 << 32} {
				do(fmt.Sprintf("forged %s after %s count %d", u.name, p.name, cnt), func() error {
					r.Trans()
					m, err := uid.NewJSON(string(u.m.JSON()))
					must(err)
					pm, err := uid.NewJSON(string(p.m.JSON()))
					must(err)
					m.UIDContent.MSGCOUNT = cnt
					m.USERSIGNATURE = b64(ed25519.Sign(p.m.PrivateSigKey64()[:], m.UIDContent.JSON()))
					err = m.VerifyUserSig(pm)
					if (err == nil) != (cnt == p.m.UIDContent.MSGCOUNT+1) {
						return vk.Badf("update counter", "count %d after %d: %v", cnt, p.m.UIDContent.MSGCOUNT, err)
					}
					// the new key cannot authorise itself
					m.USERSIGNATURE = b64(ed25519.Sign(u.m.PrivateSigKey64()[:], m.UIDContent.JSON()))
					if u.name != p.name && m.VerifyUserSig(pm) == nil {
						return vk.Badf("update signature", "signed by the new key only")
					}
					return nil
				})
			}
		}
	})
}

// rules signs messages against the rules of version 1.0.
func rules() {
	m, err := uid.Create("alice@mute.one", false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("rules"))
	must(err)
	key := func(n int) (string, string) {
		k := make([]byte, n)
		vk.NewRand("rulekey").Read(k)
		h := sha512.Sum512(k)
		return b64(k), b64(h[:])
	}
	ke := func(suite, fn, hash, pub string) interface{} {
		return map[string]interface{}{"CIPHERSUITE": suite, "FUNCTION": fn, "HASH": hash, "PUBKEY": pub}
	}
	good, goodHash := key(32)
	var bad []struct {
		path, what string
		v          interface{}
	}
	add := func(path, what string, v interface{}) {
		bad = append(bad, struct {
			path, what string
			v          interface{}
		}{".UIDContent." + path, what, v})
	}
	for _, v := range []string{"", "1", "1.1", "1.00", "2.0", " 1.0", "1.0 "} {
		add("VERSION", v, v)
	}
	for _, v := range []string{"", "mandatory", "optional", "STRICT", "strict ", "none"} {
		add("PREFERENCES.FORWARDSEC", v, v)
	}
	add("MIXADDRESS", "set", "mix@mute.one")
	add("NYMADDRESS", "set", "nym")
	for _, id := range []string{"", "alice", "@", "alice@", "@mute.one", "Alice@mute.one", "alice@@mute.one", "alice@Mute.one", "al ice@mute.one"} {
		add("IDENTITY", id, id)
	}
	for _, l := range []string{"", "x", hashchain.TestEntry[:200], hashchain.TestEntry + "AAAA"} {
		add("LASTENTRY", l, l)
	}
	e := make([]byte, hashchain.EntryByteLen)
	for _, t := range []byte{0, 2, 255} {
		e[32] = t
		add("LASTENTRY", fmt.Sprintf("type %d", t), b64(e))
	}
	for _, l := range [][]interface{}{nil, {}, {"mute.one", "mute.one"}, {"example.com"}, {""}, {"mute.one", "x"}, {"x", "mute.one"}} {
		var v interface{} = l
		add("REPOURIS", fmt.Sprint(l), v)
	}
	suite := uid.DefaultCiphersuite
	for _, p := range []struct{ path, fn, other string }{{"SIGKEY", "ED25519", "ECDHE25519"}, {"PUBKEYS.0", "ECDHE25519", "ED25519"}} {
		for _, s := range []string{"", "NACL", strings.ToLower(suite), suite + " "} {
			add(p.path, "suite "+s, ke(s, p.fn, goodHash, good))
		}
		for _, f := range []string{"", p.other, "ED25510", strings.ToLower(p.fn), p.fn + " "} {
			add(p.path, "function "+f, ke(suite, f, goodHash, good))
		}
		for _, n := range []int{0, 1, 31, 33, 64} {
			k, h := key(n)
			add(p.path, fmt.Sprintf("key of %d bytes", n), ke(suite, p.fn, h, k))
			add(p.path, fmt.Sprintf("key of %d bytes, other hash", n), ke(suite, p.fn, goodHash, k))
			add(p.path, fmt.Sprintf("hash of %d bytes", n), ke(suite, p.fn, k, good))
		}
		h, _ := raw(goodHash)
		for i := range h {
			g := append([]byte(nil), h...)
			g[i] ^= 1
			add(p.path, fmt.Sprintf("hash altered at %d", i), ke(suite, p.fn, b64(g), good))
		}
		k, _ := raw(good)
		for i := range k {
			g := append([]byte(nil), k...)
			g[i] ^= 0x80
			add(p.path, fmt.Sprintf("key altered at %d", i), ke(suite, p.fn, goodHash, b64(g)))
		}
		add(p.path, "hash no base64", ke(suite, p.fn, "?", good))
		add(p.path, "key no base64", ke(suite, p.fn, goodHash, "?"))
		add(p.path, "null", nil)
	}
	good1 := ke(suite, "ECDHE25519", goodHash, good)
	add("PUBKEYS", "none", []interface{}{})
	add("PUBKEYS", "null", nil)
	add("PUBKEYS", "two", []interface{}{good1, good1})
	for _, f := range []string{"CIPHERSUITE", "FUNCTION", "HASH", "PUBKEY"} {
		add("SIGESCROW", f+" set", map[string]interface{}{f: "x"})
	}
	add("SIGESCROW", "set", ke(suite, "ED25519", goodHash, good))
	add("CHAINLINK", "LAST set", map[string]interface{}{"LAST": "x"})
	add("CHAINLINK", "URI set", map[string]interface{}{"URI": []interface{}{"x"}})
	add("CHAINLINK", "AUTHORITATIVE set", map[string]interface{}{"AUTHORITATIVE": true})
	add("CHAINLINK", "DOMAINS set", map[string]interface{}{"DOMAINS": []interface{}{"x"}})
	add("CHAINLINK", "IDENTITY set", map[string]interface{}{"IDENTITY": "x"})
	root := jsonmut.Parse(m.JSON())
	r.Parallel(len(bad), func(i int) {
		b := bad[i]
		do("rule "+b.path+" "+b.what, func() error {
			x, err := uid.NewJSON(string(jsonmut.Text(jsonmut.Set(root, b.path, b.v))))
			if err != nil {
				return nil
			}
			if x.Check() == nil {
				return vk.Badf("rules", "%s %s passes the rules of version 1.0", b.path, b.what)
			}
			x.VerifySelfSig()
			x.VerifyUserSig(x)
			return nil
		})
	})
	do("rule both signatures", func() error {
		x, _ := uid.NewJSON(string(m.JSON()))
		x.ESCROWSIGNATURE, x.USERSIGNATURE = "x", "y"
		if x.Check() == nil {
			return vk.Badf("rules", "both update signatures at once")
		}
		return nil
	})
}

func serverKey(name string) *cipher.Ed25519Key {
	k, err := cipher.Ed25519Generate(vk.NewRand("server" + name))
	must(err)
	return k
}

// entryText is what a key server signs.
func entryText(e uid.Entry) []byte {
	return jsonmut.Text(map[string]interface{}{"UIDMESSAGEENCRYPTED": e.UIDMESSAGEENCRYPTED,
		"HASHCHAINENTRY": e.HASHCHAINENTRY, "HASHCHAINPOS": e.HASHCHAINPOS})
}

func replies() {
	m, err := uid.Create("alice@mute.one", false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("reply"))
	must(err)
	other, err := uid.Create("bob@mute.one", false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("reply2"))
	must(err)
	up, err := m.Update(vk.NewRand("reply3"))
	must(err)
	srv, mal := serverKey("a"), serverKey("b")
	pub := func(k *cipher.Ed25519Key) string { return b64(k.PublicKey()[:]) }
	_, _, enc := m.Encrypt()
	_, _, encOther := other.Encrypt()
	_, _, encUp := up.Encrypt()
	hash, _, _ := m.Encrypt()
	ref := uid.CreateReply(enc, hashchain.TestEntry, 17, srv)
	refText, _ := json.Marshal(ref)
	// judge decides a reply
	jr := func(rep *uid.MessageReply, msg *uid.Message, key string) error {
		err := rep.VerifySrvSig(msg, key)
		k, ok := raw(key)
		s, ok2 := raw(rep.SERVERSIGNATURE)
		ok = ok && ok2 && len(k) == 32 && ed25519.Verify(k, entryText(rep.ENTRY), s)
		e, ok3 := raw(rep.ENTRY.UIDMESSAGEENCRYPTED)
		if ok = ok && ok3 && len(e) >= 48; ok {
			h := sha256.Sum256(msg.JSON())
			idx := sha256.Sum256(h[:])
			blk, _ := aes.NewCipher(h[:])
			out := make([]byte, len(e)-48)
			stdcipher.NewCTR(blk, e[32:48]).XORKeyStream(out, e[48:])
			ok = bytes.Equal(e[:32], idx[:]) && bytes.Equal(out, msg.JSON())
		}
		if (err == nil) != ok {
			return vk.Badf("reply", "decision %v, should be accepted: %v", err, ok)
		}
		r.Outcome(fmt.Sprintf("reply accepted: %v", ok))
		return nil
	}
	do("honest reply", func() error {
		if err := ref.VerifySrvSig(m, pub(srv)); err != nil {
			return vk.Badf("reply", "%v", err)
		}
		if ref.ENTRY.UIDMESSAGEENCRYPTED != enc || ref.ENTRY.HASHCHAINENTRY != hashchain.TestEntry || ref.ENTRY.HASHCHAINPOS != 17 {
			return vk.Badf("reply", "%s", ref.JSON())
		}
		n, err := uid.NewJSONReply(string(ref.JSON()))
		if err != nil || !reflect.DeepEqual(n, ref) {
			return vk.Badf("reply", "changes when encoded and decoded")
		}
		return jr(n, m, pub(srv))
	})
	// all texts, messages, keys
	for pos := range []int{0, 1, 2} {
		for ei, e := range []string{enc, encOther, encUp, "", "x", enc[:40]} {
			for si, sk := range []*cipher.Ed25519Key{srv, mal} {
				for mi, msg := range []*uid.Message{m, other, up} {
					for _, key := range []string{pub(srv), pub(mal), "", "x", pub(srv)[:20], b64(append(srv.PublicKey()[:], 0))} {
						rep := uid.CreateReply(e, hashchain.TestEntry, uint64(pos), sk)
						do(fmt.Sprintf("reply %d %d %d %d %.4s", pos, ei, si, mi, key), func() error { return jr(rep, msg, key) })
					}
				}
			}
		}
	}
	// alterations of the text, as they are and signed again by the server
	var muts []jsonmut.Mut
	muts = append(jsonmut.All(refText, r.Thorough()), jsonmut.Raw(refText)...)
	r.Parallel(len(muts), func(i int) {
		for k := 0; k < 2; k++ {
			do(fmt.Sprintf("reply %s %s signed=%d", muts[i].Path, muts[i].What, k), func() error {
				rep, err := uid.NewJSONReply(string(muts[i].Doc))
				if err != nil {
					return nil
				}
				if k == 1 {
					rep = uid.CreateReply(rep.ENTRY.UIDMESSAGEENCRYPTED, rep.ENTRY.HASHCHAINENTRY, rep.ENTRY.HASHCHAINPOS, srv)
				}
				if k == 0 && rep.ENTRY != ref.ENTRY && rep.VerifySrvSig(m, pub(srv)) == nil {
					return vk.Badf("reply", "an altered entry keeps its signature: %s", muts[i].Doc)
				}
				rep.Decrypt(hash)
				return jr(rep, m, pub(srv))
			})
		}
	})
	// every byte of the encrypted message, signed by the server
	e, _ := raw(enc)
	vals := []byte{1, 0x80}
	if r.Thorough() {
		vals = []byte{1, 2, 4, 8, 16, 32, 64, 128, 255}
	}
	r.Parallel(len(e), func(i int) {
		var list [][]byte
		for _, v := range vals {
			c := append([]byte(nil), e...)
			c[i] ^= v
			list = append(list, c)
		}
		list = append(list, append([]byte(nil), e[:i]...), append(append([]byte(nil), e[:i]...), e[i+1:]...), append(append([]byte(nil), e[:i+1]...), e[i:]...))
		for k, c := range list {
			c := c
			do(fmt.Sprintf("encrypted message byte %d variant %d", i, k), func() error {
				rep := uid.CreateReply(b64(c), hashchain.TestEntry, 17, srv)
				if _, n, err := rep.Decrypt(hash); err == nil && full(n) != full(m) {
					return vk.Badf("decryption", "an altered encrypted message decrypts to another message")
				}
				return jr(rep, m, pub(srv))
			})
		}
	})
	// keys to decrypt with
	for n := 0; n <= 40; n++ {
		do(fmt.Sprintf("decrypt with %d bytes", n), func() error {
			h := append([]byte(nil), hash...)
			for len(h) < n {
				h = append(h, 0)
			}
			_, x, err := ref.Decrypt(h[:n])
			if (err == nil) != (n == 32) || (err == nil && full(x) != full(m)) {
				return vk.Badf("decryption", "with %d bytes: %v", n, err)
			}
			return nil
		})
	}
	for i := 0; i < 256; i++ {
		do(fmt.Sprintf("decrypt with bit %d altered", i), func() error {
			h := append([]byte(nil), hash...)
			h[i/8] ^= 1 << uint(i%8)
			if _, x, err := ref.Decrypt(h); err == nil {
				return vk.Badf("decryption", "with a wrong key: %s", x.JSON())
			}
			return nil
		})
	}
	// an identity message whose text is encrypted in another form
	do("foreign text", func() error {
		for _, t := range []string{"", "{}", "null", "[]", "{", string(m.JSON()) + " ", " " + string(m.JSON()), string(m.JSON()[:100])} {
			h := sha256.Sum256([]byte(t))
			idx := sha256.Sum256(h[:])
			blk, _ := aes.NewCipher(h[:])
			out := make([]byte, 48+len(t))
			copy(out, idx[:])
			stdcipher.NewCTR(blk, out[32:48]).XORKeyStream(out[48:], []byte(t))
			rep := uid.CreateReply(b64(out), hashchain.TestEntry, 17, srv)
			rep.Decrypt(h[:])
			if err := jr(rep, m, pub(srv)); err != nil {
				return err
			}
		}
		return nil
	})
}

// nonces checks the signed times a user authenticates with.
func nonces() {
	m, err := uid.Create("alice@mute.one", false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("nonce"))
	must(err)
	o, err := uid.Create("bob@mute.one", false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("nonce2"))
	must(err)
	n, sig := m.SignNonce()
	do("nonce", func() error {
		if n != now {
			return vk.Badf("nonce", "is %d, not the time", n)
		}
		if err := uid.VerifyNonce(m.SigPubKey(), n, sig); err != nil {
			return vk.Badf("nonce", "%v", err)
		}
		return nil
	})
	vals := []uint64{0, n + 1, n - 1, math.MaxUint64}
	for i := uint(0); i < 64; i++ {
		vals = append(vals, n^1<<i)
	}
	s, _ := raw(sig)
	for _, v := range vals {
		do(fmt.Sprintf("nonce %d", v), func() error {
			if uid.VerifyNonce(m.SigPubKey(), v, sig) == nil {
				return vk.Badf("nonce", "the signature of %d verifies for %d", n, v)
			}
			var t [8]byte
			binary.BigEndian.PutUint64(t[:], v)
			if uid.VerifyNonce(m.SigPubKey(), v, b64(ed25519.Sign(o.PrivateSigKey64()[:], t[:]))) == nil {
				return vk.Badf("nonce", "signed by another key")
			}
			return nil
		})
	}
	for i := 0; i < len(s)*8; i++ {
		do(fmt.Sprintf("nonce signature bit %d", i), func() error {
			c := append([]byte(nil), s...)
			c[i/8] ^= 1 << uint(i%8)
			if uid.VerifyNonce(m.SigPubKey(), n, b64(c)) == nil {
				return vk.Badf("nonce", "an altered signature verifies")
			}
			if i < len(s) && uid.VerifyNonce(m.SigPubKey(), n, b64(s[:i])) == nil {
				return vk.Badf("nonce", "a cut signature verifies")
			}
			return nil
		})
	}
	for _, k := range []string{"", "x", o.SigPubKey(), m.SigPubKey()[:40], b64(make([]byte, 33))} {
		do("nonce key "+k, func() error {
			if uid.VerifyNonce(k, n, sig) == nil {
				return vk.Badf("nonce", "verifies with key %q", k)
			}
			return nil
		})
	}
}

// entries checks key entries.
func entries() {
	mk := func(seed string) *uid.KeyEntry {
		var ke uid.KeyEntry
		must(ke.InitDHKey(vk.NewRand(seed)))
		return &ke
	}
	a := mk("entry")
	do("key entry", func() error {
		n, err := uid.NewJSONKeyEntry(a.JSON())
		if err != nil || !uid.KeyEntryEqual(n, a) || n.Verify() != nil {
			return vk.Badf("key entry", "changes when encoded and decoded")
		}
		if *n.PublicKey32() != *a.PublicKey32() {
			return vk.Badf("key entry", "other public key")
		}
		if err := n.SetPrivateKey(a.PrivateKey()); err != nil || *n.PrivateKey32() != *a.PrivateKey32() {
			return vk.Badf("key entry", "other private key")
		}
		return nil
	})
	ref := jsonText(a)
	for _, mu := range append(jsonmut.All(a.JSON(), true), jsonmut.Raw(a.JSON())...) {
		mu := mu
		do("key entry "+mu.Path+" "+mu.What, func() error {
			n, err := uid.NewJSONKeyEntry(mu.Doc)
			if err != nil {
				return nil
			}
			k, ok := raw(n.PUBKEY)
			h, ok2 := raw(n.HASH)
			s := sha512.Sum512(k)
			ok = ok && ok2 && len(k) == 32 && bytes.Equal(h, s[:]) && n.CIPHERSUITE == uid.DefaultCiphersuite && (n.FUNCTION == "ED25519" || n.FUNCTION == "ECDHE25519")
			if (n.Verify() == nil) != ok {
				return vk.Badf("key entry", "decision %v, should be accepted: %v: %s", n.Verify(), ok, mu.Doc)
			}
			if uid.KeyEntryEqual(n, a) != (jsonText(n) == ref) || uid.KeyEntryEqual(a, n) != (jsonText(n) == ref) {
				return vk.Badf("key entry", "equality of %s and %s", jsonText(n), ref)
			}
			return nil
		})
	}
}

func jsonText(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

func main() {
	r = vk.Start("C11")
	clock.Freeze(now)
	r.Assume("Ed25519, AES, SHA-256 and SHA-512 are not broken")
	vs := variants()
	r.Parallel(len(vs), func(i int) {
		do("honest "+vs[i].String(), func() error { return honest(vs[i]) })
	})
	engine()
	rules()
	entries()
	nonces()
	pairs()
	splices()
	replies()
	m, err := uid.Create("alice@mute.one", false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("altered"))
	must(err)
	u, err := m.Update(vk.NewRand("altered2"))
	must(err)
	u2, err := u.Update(vk.NewRand("altered3"))
	must(err)
	altered("message", m, nil, true)
	altered("update", u, m, true)
	altered("second update", u2, u, r.Thorough())
	if r.Thorough() {
		k, err := uid.Create("keyserver@mute.one", false, "", "", uid.Strict, "", vk.NewRand("altered4"))
		must(err)
		altered("key server's", k, nil, true)
	}
	if r.Expired() {
		r.Cap("deadline")
	}
	r.Done()
}
