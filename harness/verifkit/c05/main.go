// c05 checks who a message is reported to be from and what is reported signed.
package main

import (
	"bytes"
	"fmt"

	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/uid"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/world"
)

const keys = 3

func main() {
	world.Init()
	r := vk.Start("C05")
	defer r.Done()
	setup := func(err error) bool {
		if err != nil {
			r.Fail("setup", err.Error(), "honest exchange")
		}
		return err != nil
	}
	mk := func(n string) *world.Party {
		p, err := world.NewParty(n, "c05")
		setup(err)
		return p
	}
	a, b, m := mk("alice@mute.berlin"), mk("bob@mute.berlin"), mk("mallory@mute.berlin")
	if r.Failures() > 0 || setup(world.Meet(a, b, m)) {
		return
	}
	// send with an explicit signing key and identity
	send := func(p *world.Party, from *uid.Message, to *world.Party, key *[64]byte, ct []byte) ([]byte, error) {
		vk.GoRand.Use(&p.Rand)
		var out bytes.Buffer
		_, err := msg.Encrypt(&msg.EncryptArgs{Writer: &out, From: from, To: to.UID, PrivateSigKey: key,
			SenderLastKeychainHash: hashchain.TestEntry, Reader: bytes.NewReader(ct), NumOfKeys: keys,
			AvgSessionSize: 1 << 30, Rand: &p.Rand, KeyStore: p.Store})
		return out.Bytes(), err
	}
	// positions in a conversation
	type pos struct {
		name string
		a, b *world.Party
	}
	var ps []pos
	ps = append(ps, pos{"first message", a, b})
	a1, b1 := a.Clone(), b.Clone()
	for i := 0; i < 4; i++ {
		enc, _, err := a1.Send(b1, []byte("hello"), i%2 == 0, i == 2, keys, 0)
		if setup(err) {
			return
		}
		if _, err := b1.Open(enc, keys); setup(err) {
			return
		}
		ps = append(ps, pos{fmt.Sprintf("after %d messages", 2*i+1), a1.Clone(), b1.Clone()})
		enc, _, err = b1.Send(a1, []byte("hello"), i%2 == 1, false, keys, 0)
		if setup(err) {
			return
		}
		if _, err := a1.Open(enc, keys); setup(err) {
			return
		}
		ps = append(ps, pos{fmt.Sprintf("after %d messages", 2*i+2), a1.Clone(), b1.Clone()})
	}
	signers := []struct {
		name string
		key  *[64]byte
	}{{"no signature", nil}, {"alice's key", a.UID.PrivateSigKey64()}, {"mallory's key", m.UID.PrivateSigKey64()},
		{"bob's key", b.UID.PrivateSigKey64()}}
	var lens []int
	for n := 0; n <= 160; n++ {
		lens = append(lens, n)
	}
	for _, n := range []int{1000, 4095, 4096, 20000, 41690, 41691} {
		lens = append(lens, n)
	}
	for _, p := range ps {
		p := p
		r.State(p.name)
		for _, s := range signers {
			s := s
			r.Parallel(len(lens), func(i int) {
				ct := bytes.Repeat([]byte{byte(i + 1)}, lens[i])
				desc := fmt.Sprintf("%s, %s, content of %d bytes", p.name, s.name, lens[i])
				r.Eval(desc)
				r.Trans()
				r.Case(desc, func() error {
					x, y := p.a.Clone(), p.b.Clone()
					enc, err := send(x, x.UID, y, s.key, ct)
					if err != nil {
						return vk.Badf("send", "%s: %v", desc, err)
					}
					o, err := y.Open(enc, keys)
					switch s.name {
					case "no signature", "alice's key":
						if err != nil {
							return vk.Badf("refused", "%s: %v", desc, err)
						}
						if o.Sender != a.Name || !bytes.Equal(o.Content, ct) {
							return vk.Badf("wrong", "%s: sender %s", desc, o.Sender)
						}
						if (s.key == nil) != (o.Sig == "") {
							return vk.Badf("reported", "%s: reported signature %q", desc, o.Sig)
						}
						if s.key != nil {
							if err := world.VerifySig(x, o); err != nil {
								return vk.Badf("signature", "%s: %v", desc, err)
							}
						}
					default:
						if err == nil {
							return vk.Badf("foreign-signature", "%s: accepted, reported signature %q", desc, o.Sig)
						}
					}
					r.Outcome(s.name)
					return nil
				})
			})
		}
	}
	r.Sample("%d positions in a conversation x %d signers x %d content lengths", len(ps), len(signers), len(lens))

	// stated sender, sender key and identity message in all combinations, from
	// mallory, who runs the honest code under any name and reseals the header
	copyUID := func(u *uid.Message) *uid.Message { c := *u; return &c }
	for _, claim := range []string{m.Name, a.Name} { // name the keys are derived for
		for _, ident := range []string{"", m.Name, a.Name} { // SenderIdentity in the header, "" leaves it
			for _, key := range []string{"", "alice"} { // SenderIdentityPub
				for _, um := range []string{"", "mallory", "alice", "mallory-as-alice", "alice-with-mallory-sig"} {
					for _, signed := range []bool{false, true} {
						desc := fmt.Sprintf("keys made as %s, header says %q, key %q, identity message %q, signed %v", claim, ident, key, um, signed)
						r.Eval(desc)
						r.Trans()
						r.Case(desc, func() error {
							x, y := m.Clone(), b.Clone()
							from := copyUID(x.UID)
							from.UIDContent.IDENTITY = claim
							var k *[64]byte
							if signed {
								k = m.UID.PrivateSigKey64()
							}
							enc, err := send(x, from, y, k, []byte("pay mallory"))
							if err != nil {
								return vk.Badf("send", "%s: %v", desc, err)
							}
							dec, err := world.ForgeHeader(world.Decoded(enc), y, &x.Rand, func(h map[string]interface{}) {
								if ident != "" {
									h["SenderIdentity"] = ident
								}
								if key != "" {
									h["SenderIdentityPub"] = world.KEMap(a.UID.PubKey())
								}
								switch um {
								case "mallory":
									h["SenderUID"] = string(m.UID.JSON())
								case "alice":
									h["SenderUID"] = string(a.UID.JSON())
								case "mallory-as-alice":
									u := copyUID(m.UID)
									u.UIDContent.IDENTITY = a.Name
									h["SenderUID"] = string(u.JSON())
								case "alice-with-mallory-sig":
									u := copyUID(a.UID)
									u.UIDContent.SIGKEY = m.UID.UIDContent.SIGKEY
									h["SenderUID"] = string(u.JSON())
								}
							})
							if err != nil {
								return vk.Badf("setup-forge", "%s: %v", desc, err)
							}
							vk.GoRand.Use(&y.Rand)
							o, err := y.OpenRaw(y.Store, []*uid.Message{y.UID}, bytes.NewReader(dec), keys)
							if err != nil {
								r.Outcome("refused")
								return nil
							}
							r.Outcome("accepted as " + o.Sender)
							if o.Sender != m.Name {
								// who does the identity message in the header belong to?
								sig := "impersonation"
								if isForged(um, claim) {
									sig = "impersonation-with-forged-identity-message"
								}
								return vk.Badf(sig, "%s: accepted as a message from %s, signature %q", desc, o.Sender, o.Sig)
							}
							return nil
						})
					}
				}
			}
		}
	}
	// an identity message mallory made for alice's name, with own keys
	for _, signed := range []bool{false, true} {
		desc := fmt.Sprintf("identity made up under alice's name, signed %v", signed)
		r.Eval(desc)
		r.Case(desc, func() error {
			x, err := world.NewParty(a.Name, "mallory's")
			if err != nil {
				return vk.Badf("setup", "%v", err)
			}
			x.Store.AddPub(b.Name, b.KI)
			y := b.Clone()
			enc, _, err := x.Send(y, []byte("pay mallory"), signed, false, keys, 0)
			if err != nil {
				return vk.Badf("send", "%v", err)
			}
			if o, err := y.Open(enc, keys); err == nil {
				return vk.Badf("made-up-identity", "accepted as a message from %s, signature %q", o.Sender, o.Sig)
			}
			return nil
		})
	}
	r.Trace()
}

// isForged tells whether the header carries an identity message for alice that
// mallory made up (rather than a genuine one that does not fit).
func isForged(um, claim string) bool {
	return um == "mallory-as-alice" || um == "" && claim == "alice@mute.berlin"
}
