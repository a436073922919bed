package main

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"

	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	vk "github.com/mutecomm/mute/verifkit"
	ck "github.com/mutecomm/mute/verifkit/cryptkit"
	"github.com/mutecomm/mute/verifkit/jsonmut"
)

// The commands that generate, register, update and delete user IDs, against a
// key server that answers anything.

const dom = "mute.one"

func js(v interface{}) []byte {
	b, err := json.Marshal(v)
	must(err)
	return b
}

// version is a stored identity message.
type version struct {
	doc, sig, enc string // the message and its private keys
	reply         string // its canonical reply, or ""
}

// ids is the reference model: versions by identity.
type ids map[string][]version

func (m ids) key() string {
	var l []string
	for id, vs := range m {
		s := id
		for _, v := range vs {
			s += fmt.Sprint(" ", v.reply != "")
		}
		if len(vs) > 0 {
			l = append(l, s)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

type idWorld struct {
	db   *ck.DB
	m    ids
	srv  *ck.Server
	eng  *ck.Engine
	last string // last hash chain entry
}

// answerOf makes the server's reply to a message.
type answerOf struct {
	name string
	caps []string // nil: the server's key
	make func(w *idWorld, m *uid.Message) []byte
}

var srvID, malID *uid.Message

func signedReply(enc string, last string, pos int, key ed25519.PrivateKey) map[string]interface{} {
	e := map[string]interface{}{"UIDMESSAGEENCRYPTED": enc, "HASHCHAINENTRY": last, "HASHCHAINPOS": pos}
	return map[string]interface{}{"ENTRY": e, "SERVERSIGNATURE": b64(ed25519.Sign(key, jsonmut.Text(e)))}
}

// good decides whether the answer proves the registration of doc.
func good(ans []byte, doc string, key string) bool {
	var a struct {
		UIDMessageReply struct {
			ENTRY struct {
				UIDMESSAGEENCRYPTED, HASHCHAINENTRY string
				HASHCHAINPOS                        uint64
			}
			SERVERSIGNATURE string
		}
	}
	if json.Unmarshal(ans, &a) != nil {
		return false
	}
	rep := a.UIDMessageReply
	k, ok := raw(key)
	s, ok2 := raw(rep.SERVERSIGNATURE)
	e, ok3 := raw(rep.ENTRY.UIDMESSAGEENCRYPTED)
	if !ok || !ok2 || !ok3 || len(k) != 32 || len(e) < 48 {
		return false
	}
	h := sha256.Sum256([]byte(doc))
	idx := sha256.Sum256(h[:])
	blk, _ := aes.NewCipher(h[:])
	out := make([]byte, len(e)-48)
	stdcipher.NewCTR(blk, e[32:48]).XORKeyStream(out, e[48:])
	return ed25519.Verify(k, jsonmut.Text(map[string]interface{}{"UIDMESSAGEENCRYPTED": rep.ENTRY.UIDMESSAGEENCRYPTED,
		"HASHCHAINENTRY": rep.ENTRY.HASHCHAINENTRY, "HASHCHAINPOS": rep.ENTRY.HASHCHAINPOS}), s) &&
		bytes.Equal(e[:32], idx[:]) && string(out) == doc
}

func wrapReply(v interface{}) []byte { return js(map[string]interface{}{"UIDMessageReply": v}) }

func answers() (l []answerOf) {
	add := func(name string, caps []string, f func(w *idWorld, m *uid.Message) []byte) {
		l = append(l, answerOf{name, caps, f})
	}
	sk, mk := ck.SigKey(srvID), ck.SigKey(malID)
	enc := func(m *uid.Message) string { _, _, e := m.Encrypt(); return e }
	honest := func(w *idWorld, m *uid.Message) []byte {
		return wrapReply(signedReply(enc(m), hashchain.TestEntry, 3, sk))
	}
	add("honest", nil, honest)
	add("refused", nil, func(w *idWorld, m *uid.Message) []byte { return nil })
	add("nothing", nil, func(w *idWorld, m *uid.Message) []byte { return js(map[string]interface{}{}) })
	add("text", nil, func(w *idWorld, m *uid.Message) []byte { return wrapReply("x") })
	add("list", nil, func(w *idWorld, m *uid.Message) []byte { return wrapReply([]string{"x"}) })
	add("empty", nil, func(w *idWorld, m *uid.Message) []byte { return wrapReply(map[string]string{}) })
	add("wrong type", nil, func(w *idWorld, m *uid.Message) []byte {
		x := signedReply(enc(m), hashchain.TestEntry, 3, sk)
		x["SERVERSIGNATURE"] = 5
		return wrapReply(x)
	})
	add("other message", nil, func(w *idWorld, m *uid.Message) []byte {
		return wrapReply(signedReply(enc(malID), hashchain.TestEntry, 3, sk))
	})
	add("earlier message", nil, func(w *idWorld, m *uid.Message) []byte {
		vs := w.m[m.Identity()]
		n, err := uid.NewJSON(vs[0].doc)
		must(err)
		return wrapReply(signedReply(enc(n), hashchain.TestEntry, 3, sk))
	})
	add("other signer", nil, func(w *idWorld, m *uid.Message) []byte {
		return wrapReply(signedReply(enc(m), hashchain.TestEntry, 3, mk))
	})
	add("not signed", nil, func(w *idWorld, m *uid.Message) []byte {
		x := signedReply(enc(m), hashchain.TestEntry, 3, sk)
		x["SERVERSIGNATURE"] = ""
		return wrapReply(x)
	})
	add("other position", nil, func(w *idWorld, m *uid.Message) []byte {
		x := signedReply(enc(m), hashchain.TestEntry, 3, sk)
		x["ENTRY"].(map[string]interface{})["HASHCHAINPOS"] = 4
		return wrapReply(x)
	})
	add("honest, no server key", []string{}, honest)
	add("honest, wrong server key", []string{malID.SigPubKey()}, honest)
	add("honest, two server keys", []string{srvID.SigPubKey(), malID.SigPubKey()}, honest)
	add("honest, garbled server key", []string{"x"}, honest)
	return
}

// command runs a command and returns whether it failed.
func (w *idWorld) command(line string) (failed bool, out string, err error) {
	st, out, err := w.eng.Run(line)
	r.Trans()
	return len(st) > 0, out, err
}

// newest reads the newest version of an identity.
func (w *idWorld) newest(id string) (*version, *uid.Message, error) {
	m, rep, err := w.db.GetPrivateUID(id, true)
	if err != nil {
		return nil, nil, nil
	}
	v := &version{doc: string(m.JSON()), sig: m.PrivateSigKey(), enc: m.PrivateEncKey()}
	if rep != nil {
		v.reply = string(rep.JSON())
	}
	return v, m, nil
}

// usable checks a new version of an identity against the rules.
func (w *idWorld) usable(id string, prev *version) (*version, error) {
	v, m, err := w.newest(id)
	if err != nil || v == nil {
		return nil, vk.Badf("commands", "no message of %s was stored", id)
	}
	if prev != nil && v.doc == prev.doc {
		return nil, vk.Badf("commands", "no new message of %s was stored", id)
	}
	if v.reply != "" {
		return nil, vk.Badf("commands", "a new message of %s counts as registered", id)
	}
	if err := m.VerifySelfSig(); err != nil {
		return nil, vk.Badf("commands", "stored message: %v", err)
	}
	if err := m.Check(); err != nil {
		return nil, vk.Badf("commands", "stored message: %v", err)
	}
	c := m.UIDContent
	if c.IDENTITY != id || len(c.REPOURIS) != 1 || c.REPOURIS[0] != dom || c.NOTAFTER <= now {
		return nil, vk.Badf("commands", "stored message %s", v.doc)
	}
	k := m.PrivateSigKey64()
	if s, ok := raw(c.SIGKEY.PUBKEY); !ok || !bytes.Equal(ed25519.NewKeyFromSeed(k[:32]).Public().(ed25519.PublicKey), s) {
		return nil, vk.Badf("commands", "the signature key kept is not the one of the message")
	}
	pk, err := m.PublicKey()
	if err != nil || !bytes.Equal(pubOf(m.PrivateEncKey32()[:]), pk[:]) {
		return nil, vk.Badf("commands", "the encryption key kept is not the one of the message")
	}
	if strings.Contains(v.doc, v.sig) || strings.Contains(v.doc, v.enc) {
		return nil, vk.Badf("commands", "the message has a private key")
	}
	if prev == nil {
		if c.MSGCOUNT != 0 || c.LASTENTRY != w.last {
			return nil, vk.Badf("commands", "message %d after chain entry %q", c.MSGCOUNT, c.LASTENTRY)
		}
		return v, nil
	}
	p, err := uid.NewJSON(prev.doc)
	must(err)
	if c.MSGCOUNT != p.UIDContent.MSGCOUNT+1 {
		return nil, vk.Badf("commands", "update %d of message %d", c.MSGCOUNT, p.UIDContent.MSGCOUNT)
	}
	pkey, _ := raw(p.UIDContent.SIGKEY.PUBKEY)
	us, ok := raw(m.USERSIGNATURE)
	if !ok || !ed25519.Verify(pkey, jsonmut.Text(jsonmut.Parse(js(m.UIDContent))), us) {
		return nil, vk.Badf("commands", "the update is not authorised by the previous version")
	}
	return v, nil
}

// idOp is a command.
type idOp struct {
	name string
	do   func(w *idWorld) error
}

func idOps(full bool) (l []idOp) {
	add := func(name string, f func(w *idWorld) error) { l = append(l, idOp{name, f}) }
	alice, bob := "alice@"+dom, "bob@"+dom
	spelled := map[string]string{alice: "Alice@" + dom, bob: bob}
	for _, id := range []string{alice, bob} {
		id := id
		add("generate "+id, func(w *idWorld) error {
			if len(w.m[id]) > 0 {
				return nil // the user has it already
			}
			failed, _, err := w.command("uid generate --id " + spelled[id])
			if err != nil {
				return err
			}
			if failed != (w.last == "") {
				return vk.Badf("commands", "generate failed: %v, last entry %q", failed, w.last)
			}
			if failed {
				return nil
			}
			v, err := w.usable(id, nil)
			if err == nil {
				w.m[id] = append(w.m[id], *v)
			}
			return err
		})
		add("genupdate "+id, func(w *idWorld) error {
			if len(w.m[id]) > 2 || id == bob && len(w.m[id]) > 1 {
				return nil
			}
			failed, _, err := w.command("uid genupdate --id " + id)
			if err != nil {
				return err
			}
			n := len(w.m[id])
			if failed != (n == 0) {
				return vk.Badf("commands", "genupdate failed: %v, with %d messages", failed, n)
			}
			if failed {
				return nil
			}
			v, err := w.usable(id, &w.m[id][n-1])
			if err == nil {
				w.m[id] = append(w.m[id], *v)
			}
			return err
		})
		for _, verb := range []string{"register", "update"} {
			verb := verb
			for i, a := range answers() {
				if id == bob && i > 0 || !full && verb == "update" && i > 1 {
					continue
				}
				a := a
				add(verb+" "+id+" "+a.name, func(w *idWorld) error { return w.register(verb, spelled[id], id, a) })
			}
		}
		add("delete "+id, func(w *idWorld) error {
			if len(w.m[id]) > 1 {
				return nil
			}
			failed, _, err := w.command("uid delete --force --id " + spelled[id])
			if err != nil {
				return err
			}
			if failed != (len(w.m[id]) == 0) {
				return vk.Badf("commands", "delete failed: %v, with %d messages", failed, len(w.m[id]))
			}
			w.m[id] = nil
			return nil
		})
	}
	return l
}

func (w *idWorld) register(verb, arg, id string, a answerOf) error {
	method := map[string]string{"register": "KeyRepository.CreateUID", "update": "KeyRepository.UpdateUID"}[verb]
	vs := w.m[id]
	caps := a.caps
	if caps == nil {
		caps = []string{srvID.SigPubKey()}
	}
	asked := 0
	var ans []byte
	var bad error
	w.srv.Answer = func(m string, p map[string]interface{}) []byte {
		if m == "KeyRepository.Capabilities" {
			return js(map[string]interface{}{"CAPABILITIES": map[string]interface{}{"METHODS": ck.Methods, "DOMAINS": []string{dom}, "SIGPUBKEYS": caps}})
		}
		asked++
		if m != method {
			bad = vk.Badf("commands", "%s asked %s", verb, m)
			return nil
		}
		if len(vs) == 0 || p["Token"] != "tok-"+verb {
			bad = vk.Badf("commands", "asked with %v", p)
			return nil
		}
		msg, err := uid.NewJSON(string(jsonmut.Text(p["UIDMessage"])))
		if err != nil || string(msg.JSON()) != vs[len(vs)-1].doc || len(p) != 2 {
			bad = vk.Badf("commands", "registers %v, newest is %s", p, vs[len(vs)-1].doc)
			return nil
		}
		ans = a.make(w, msg)
		return ans
	}
	failed, _, err := w.command(fmt.Sprintf("uid %s --id %s --token tok-%s", verb, arg, verb))
	if err != nil {
		return err
	}
	if bad != nil {
		return bad
	}
	may := len(vs) > 0 && vs[len(vs)-1].reply == ""
	if !may && asked > 0 {
		return vk.Badf("commands", "registers again")
	}
	if asked > 1 {
		return vk.Badf("commands", "asks %d times", asked)
	}
	ok := may && asked == 1 && len(caps) > 0 && good(ans, vs[len(vs)-1].doc, caps[0])
	if may && len(caps) > 0 && asked != 1 {
		return vk.Badf("commands", "%s does not ask the server", verb)
	}
	if failed == ok {
		return vk.Badf("commands", "%s failed: %v, should succeed: %v, answer %s", verb, failed, ok, ans)
	}
	r.Outcome(fmt.Sprintf("%s succeeds: %v", verb, ok))
	if !may {
		return nil
	}
	// the reply is kept as proof, even if it does not prove the registration
	v, _, err := w.newest(id)
	if err != nil || v == nil {
		return vk.Badf("commands", "message lost")
	}
	var c struct{ UIDMessageReply json.RawMessage }
	if v.reply != "" {
		if ans == nil || json.Unmarshal(ans, &c) != nil {
			return vk.Badf("commands", "reply %q from answer %s", v.reply, ans)
		}
		want, err := uid.NewJSONReply(string(c.UIDMessageReply))
		if err != nil || string(want.JSON()) != v.reply {
			return vk.Badf("commands", "reply %q from answer %s", v.reply, ans)
		}
	} else if ok {
		return vk.Badf("commands", "the server's reply is not kept")
	}
	vs[len(vs)-1].reply = v.reply
	return nil
}

// check compares all that is stored with the model.
func (w *idWorld) check() error {
	var want []string
	for _, id := range []string{"alice@" + dom, "bob@" + dom} {
		v, _, err := w.newest(id)
		if err != nil {
			return err
		}
		vs := w.m[id]
		if (v != nil) != (len(vs) > 0) || v != nil && *v != vs[len(vs)-1] {
			return vk.Badf("commands", "stored for %s: %v, want %v", id, v, vs)
		}
		if v != nil {
			want = append(want, id)
		}
	}
	failed, out, err := w.command("uid list")
	if err != nil {
		return err
	}
	got := strings.Fields(out)
	sort.Strings(got)
	if failed || strings.Join(got, " ") != strings.Join(want, " ") {
		return vk.Badf("commands", "list %q, want %q", out, want)
	}
	return nil
}

func engine() {
	var err error
	srvID, err = uid.Create("keyserver@"+dom, false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("srv"))
	must(err)
	malID, err = uid.Create("mallory@"+dom, false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("mal"))
	must(err)
	srv := ck.Serve(dom)
	srv.Raw = func(http.ResponseWriter, string, string) bool { return false }
	var eng *ck.Engine
	none := ck.Empty()
	chain := none.With(func(db *ck.DB) { must(db.AddHashChainEntry(dom, 0, hashchain.TestEntry)) })
	run := func(name string, t *ck.Template, last string, ops []idOp, seq []int) (key string, ok bool) {
		d := name
		for _, o := range seq {
			d += "; " + ops[o].name
		}
		ok = r.Case(d, func() error {
			db := t.Open()
			defer db.Drop()
			if eng == nil || eng.Dead() {
				eng = ck.Start()
			}
			w := &idWorld{db: db, m: ids{}, srv: srv, eng: eng, last: last}
			for _, o := range seq {
				eng.Use(db.KeyDB)
				if err := ops[o].do(w); err != nil {
					return err
				}
			}
			eng.Use(db.KeyDB)
			key = w.m.key()
			return w.check()
		})
		r.Eval(d)
		r.Trace()
		r.State("ids " + key)
		return key, ok
	}
	// every state, by every command
	explore := func(name string, t *ck.Template, last string, ops []idOp, depth int, merge bool) {
		level := [][]int{{}}
		seen := map[string]bool{}
		for d := 0; d <= depth && len(level) > 0 && !r.Expired(); d++ {
			var next [][]int
			for _, s := range level {
				key, ok := run(name, t, last, ops, s)
				if !ok || merge && seen[key] {
					continue
				}
				seen[key] = true
				for o := range ops {
					next = append(next, append(append([]int{}, s...), o))
				}
				if r.Expired() || r.Failures() > 20 {
					return
				}
			}
			level = next
		}
	}
	explore("no chain", none, "", idOps(false), 2, false)
	explore("commands", chain, hashchain.TestEntry, idOps(true), 12, true)
	explore("all commands", chain, hashchain.TestEntry, idOps(false), r.Pick(2, 3), false)
}

func pubOf(priv []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	must(err)
	return k.PublicKey().Bytes()
}
