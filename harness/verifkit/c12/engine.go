package main

import (
	"bytes"
	"crypto/ed25519"
	"database/sql"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	ck "github.com/mutecomm/mute/verifkit/cryptkit"
	"github.com/mutecomm/mute/verifkit/jsonmut"
)

// The commands that publish, fetch and withdraw key init messages, against a
// key server that answers anything.

const dom = "mute.one"

func js(v interface{}) []byte {
	b, err := json.Marshal(v)
	must(err)
	return b
}

func newUID(id string) *uid.Message {
	m, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("engine"+id))
	must(err)
	return m
}

var (
	srv            *ck.Server
	eng            *ck.Engine
	own, own1, pub *uid.Message // own identity, its update, a correspondent
	pub1, mallory  *uid.Message
	ks             *uid.Message
	srvKey, malKey ed25519.PrivateKey
	base           *ck.Template
)

func engineWorld() {
	own, pub, mallory, ks = newUID("alice@"+dom), newUID("bob@"+dom), newUID("mallory@"+dom), newUID("keyserver@"+dom)
	var err error
	own1, err = own.Update(vk.NewRand("own1"))
	must(err)
	pub1, err = pub.Update(vk.NewRand("pub1"))
	must(err)
	srvKey, malKey = ck.SigKey(ks), ck.SigKey(mallory)
	srv = ck.Serve(dom)
	base = ck.Empty().With(func(db *ck.DB) {
		must(db.AddPrivateUID(own))
		must(db.AddPublicUID(ks, 0))
		must(db.AddPublicUID(pub, 1))
		must(db.AddPublicUID(mallory, 2))
		must(db.AddPublicUID(own, 3))
	})
}

// command runs a command; answer gives the server's answers.
func command(db *ck.DB, line string, caps []string, answer func(method string, p map[string]interface{}) []byte) (failed bool, err error) {
	if eng == nil || eng.Dead() {
		eng = ck.Start()
	}
	eng.Use(db.KeyDB)
	srv.Raw = nil
	srv.Answer = func(m string, p map[string]interface{}) []byte {
		if m == "KeyRepository.Capabilities" {
			return js(map[string]interface{}{"CAPABILITIES": map[string]interface{}{"METHODS": ck.Methods, "DOMAINS": []string{dom}, "SIGPUBKEYS": caps}})
		}
		return answer(m, p)
	}
	st, _, err := eng.Run(line)
	r.Trans()
	return len(st) > 0, err
}

func text(m *uid.Message, p string) string {
	s, _ := jsonmut.Get(jsonmut.Parse(m.JSON()), p).(string)
	return s
}

// published is what a publishing command sent.
type published struct {
	doc  []byte // the message
	ki   *uid.KeyInit
	hash string // of the published key
	pub  []byte
}

// sent checks the parameters of a publishing request.
func sent(p map[string]interface{}, who *uid.Message, mix, nym, token string) (*published, error) {
	if p["SigPubKey"] != who.SigPubKey() {
		return nil, vk.Badf("publish", "sent with key %v", p["SigPubKey"])
	}
	if t, ok := p["Tokens"].([]interface{}); !ok || len(t) != 1 || t[0] != token {
		return nil, vk.Badf("publish", "sent with tokens %v", p["Tokens"])
	}
	l, ok := p["KeyInits"].([]interface{})
	if !ok || len(l) != 1 {
		return nil, vk.Badf("publish", "sent messages %v", p["KeyInits"])
	}
	s := &published{doc: jsonmut.Text(l[0])}
	s.ki = parse(s.doc)
	s.pub = decide(s.ki, []string{dom}, who.SigPubKey(), now)
	c := s.ki.Contents
	if s.pub == nil || c.VERSION != "1.0" || c.MSGCOUNT != 0 || c.NOTAFTER > now+90*24*3600 || c.NOTBEFORE > now {
		return nil, vk.Badf("publish", "a message was published that nobody accepts: %s", s.doc)
	}
	k, _ := raw(who.SigPubKey())
	a, _ := open(s.ki, k)
	if a.MIXADDRESS != mix || a.NYMADDRESS != nym || len(a.PFKEYS) != 1 {
		return nil, vk.Badf("publish", "anchor %v", a)
	}
	s.hash = a.PFKEYS[0].HASH
	return s, nil
}

// kept checks that what was published can be used.
func kept(db *ck.DB, s *published, who *uid.Message) error {
	ki, sigPub, priv, err := db.GetPrivateKeyInit(s.hash)
	if err != nil {
		return vk.Badf("publish", "the published key is not kept: %v", err)
	}
	p, ok := raw(priv)
	if !ok || len(p) != 32 || !bytes.Equal(pubOf(p), s.pub) {
		return vk.Badf("publish", "the key kept is not the one published")
	}
	if sigPub != who.SigPubKey() || !bytes.Equal(jsonmut.Text(jsonmut.Parse(ki.JSON())), s.doc) {
		return vk.Badf("publish", "the message kept is not the one published")
	}
	if bytes.Contains(s.doc, []byte(priv)) {
		return vk.Badf("publish", "the private key was published")
	}
	ke, err := ki.KeyEntryECDHE25519(sigPub)
	if err != nil {
		return vk.Badf("publish", "%v", err)
	}
	if err := ke.SetPrivateKey(priv); err != nil || !bytes.Equal(ke.PrivateKey32()[:], p) {
		return vk.Badf("publish", "the private key cannot be used: %v", err)
	}
	return nil
}

// signature is the honest answer.
func signature(doc []byte, key ed25519.PrivateKey) string { return b64(ed25519.Sign(key, doc)) }

// signatures decides an answer to a publishing request.
func signatures(ans []byte, doc []byte, caps []string) bool {
	var m map[string]interface{}
	if ans == nil || json.Unmarshal(ans, &m) != nil || len(caps) == 0 {
		return false
	}
	l, ok := m["Signatures"].([]interface{})
	if !ok || len(l) != 1 {
		return false
	}
	t, ok := l[0].(string)
	if !ok {
		return false
	}
	sig, ok := raw(t)
	key, ok2 := raw(caps[0])
	return ok && ok2 && len(key) == 32 && ed25519.Verify(key, doc, sig)
}

// publish runs the publishing command; answer makes the server's answer of
// the message, by default the honest one.
func publish(db *ck.DB, who *uid.Message, mix, nym, token string, caps []string, answer func(s *published) []byte) (*published, error) {
	var s *published
	var bad error
	var ans []byte
	calls := 0
	id := who.Identity()
	failed, err := command(db, fmt.Sprintf("keyinit add --id %s --mixaddress %s --nymaddress %s --token %s", id, mix, nym, token), caps,
		func(m string, p map[string]interface{}) []byte {
			if m != "KeyInitRepository.AddKeyInit" {
				bad = vk.Badf("publish", "asked %s", m)
				return nil
			}
			calls++
			s, bad = sent(p, who, mix, nym, token)
			if bad != nil {
				return nil
			}
			if answer == nil {
				ans = js(map[string]interface{}{"Signatures": []string{signature(s.doc, srvKey)}})
			} else {
				ans = answer(s)
			}
			return ans
		})
	if err != nil {
		return nil, err
	}
	if bad != nil {
		return nil, bad
	}
	if calls > 1 {
		return nil, vk.Badf("publish", "sent %d times", calls)
	}
	ok := s != nil && signatures(ans, s.doc, caps)
	r.Outcome(fmt.Sprint("published: ", ok))
	if failed == ok {
		return nil, vk.Badf("publish", "failed: %v, should be published: %v; answer %s", failed, ok, ans)
	}
	if !ok {
		return nil, nil
	}
	return s, kept(db, s, who)
}

func publishing() {
	good := []string{ks.SigPubKey()}
	once := func(desc string, t *ck.Template, who *uid.Message, caps []string, answer func(s *published) []byte) {
		seq("publish: "+desc, func() error {
			db := t.Open()
			defer db.Drop()
			s, err := publish(db, who, "mix@"+dom, "nym", "token", caps, answer)
			if err != nil {
				return err
			}
			// whatever happened, the next one succeeds
			s2, err := publish(db, who, "mix2@"+dom, "nym2", "token2", good, nil)
			if err != nil {
				return err
			}
			if s2 == nil {
				return vk.Badf("publish", "not published")
			}
			if s != nil {
				if s.hash == s2.hash {
					return vk.Badf("publish", "the same key is published twice")
				}
				if err := kept(db, s, who); err != nil {
					return err
				}
			}
			r.Trace()
			return nil
		})
	}
	updated := base.With(func(db *ck.DB) { must(db.AddPrivateUID(own1)) })
	second := base.With(func(db *ck.DB) { must(db.AddPrivateUID(pub)) })
	once("honest", base, own, good, nil)
	once("honest, updated", updated, own1, good, nil)
	once("honest, one of two", second, own, good, nil)
	once("honest, other of two", second, pub, good, nil)
	for i, caps := range [][]string{{}, {""}, {"x"}, {mallory.SigPubKey()}, {mallory.SigPubKey(), ks.SigPubKey()}, {ks.SigPubKey(), mallory.SigPubKey()}, {own.SigPubKey()}} {
		once(fmt.Sprintf("server keys %d", i), base, own, caps, nil)
	}
	wrap := func(l ...interface{}) func(s *published) []byte {
		return func(s *published) []byte { return js(map[string]interface{}{"Signatures": l}) }
	}
	once("no signature", base, own, good, wrap())
	for _, x := range []interface{}{nil, 1, "", "x", b64(make([]byte, 64)), true, []string{}, map[string]string{}} {
		once(fmt.Sprintf("signature %v", x), base, own, good, wrap(x))
	}
	with := func(f func(s *published) []interface{}) func(s *published) []byte {
		return func(s *published) []byte { return js(map[string]interface{}{"Signatures": f(s)}) }
	}
	other := func(name string, f func(s *published) []interface{}) { once(name, base, own, good, with(f)) }
	other("other server's signature", func(s *published) []interface{} { return []interface{}{signature(s.doc, malKey)} })
	other("own signature", func(s *published) []interface{} { return []interface{}{signature(s.doc, ck.SigKey(own))} })
	other("signature of the contents", func(s *published) []interface{} { return []interface{}{signature(signed(s.ki), srvKey)} })
	other("the message's signature", func(s *published) []interface{} { return []interface{}{s.ki.SIGNATURE} })
	other("two signatures", func(s *published) []interface{} {
		return []interface{}{signature(s.doc, srvKey), signature(s.doc, srvKey)}
	})
	other("bad and good signature", func(s *published) []interface{} {
		return []interface{}{signature(s.doc, malKey), signature(s.doc, srvKey)}
	})
	other("signature in a list", func(s *published) []interface{} { return []interface{}{[]string{signature(s.doc, srvKey)}} })
	other("signature of another message", func(s *published) []interface{} {
		return []interface{}{signature(jsonmut.Text(jsonmut.Set(jsonmut.Parse(s.doc), ".Contents.FALLBACK", false)), srvKey)}
	})
	for i := 0; i < 64; i++ {
		i := i
		other(fmt.Sprintf("signature byte %d", i), func(s *published) []interface{} {
			b := ed25519.Sign(srvKey, s.doc)
			b[i] ^= 1 << uint(i%8)
			return []interface{}{b64(b)}
		})
		other(fmt.Sprintf("signature of %d bytes", i), func(s *published) []interface{} {
			return []interface{}{b64(ed25519.Sign(srvKey, s.doc)[:i])}
		})
	}
	for _, d := range []string{"", "null", "{}", "[]", "7", `"x"`, "true", `{"Signatures":null}`, `{"Signatures":"x"}`, `{"Signatures":{}}`, `{"Signatures":[[]]}`, `{"signatures":[""]}`} {
		d := d
		once("answer "+d, base, own, good, func(*published) []byte {
			if d == "" {
				return nil
			}
			return []byte(d)
		})
	}
	// identities that cannot publish
	for _, id := range []string{"bob@" + dom, "nobody@" + dom, "alice@example.com", "x", ""} {
		id := id
		seq("publish for "+id, func() error {
			db := base.Open()
			defer db.Drop()
			failed, err := command(db, fmt.Sprintf("keyinit add --id %s --mixaddress m --nymaddress n --token t", id), good,
				func(m string, p map[string]interface{}) []byte {
					return js(map[string]interface{}{"Signatures": []string{""}})
				})
			if err != nil {
				return err
			}
			if !failed {
				return vk.Badf("publish", "published for %q", id)
			}
			return nil
		})
	}
}

// fetch runs the fetching command for who and compares with the reference;
// before is what is stored.
func fetch(db *ck.DB, id string, who *uid.Message, t int64, before, answer []byte) (after []byte, err error) {
	var bad error
	calls := 0
	failed, err := command(db, "keyinit fetch --id "+id, []string{ks.SigPubKey()}, func(m string, p map[string]interface{}) []byte {
		calls++
		if m != "KeyInitRepository.FetchKeyInit" {
			bad = vk.Badf("fetch", "asked %s", m)
			return nil
		}
		if who != nil {
			k, _ := raw(text(who, ".UIDContent.SIGKEY.HASH"))
			if p["SigKeyHash"] != b64(h512(k)) {
				bad = vk.Badf("fetch", "asked for %v", p["SigKeyHash"])
			}
		}
		return answer
	})
	if err != nil {
		return nil, err
	}
	if bad != nil {
		return nil, bad
	}
	if who == nil {
		if !failed {
			return nil, vk.Badf("fetch", "reported for an unknown identity")
		}
		return before, nil
	}
	var m map[string]interface{}
	var want []byte
	if answer != nil && json.Unmarshal(answer, &m) == nil {
		if s, ok := m["KeyInit"].(string); ok {
			if ki, err := uid.NewJSONKeyInit([]byte(s)); err == nil && ki.Contents.VERSION == "1.0" && ki.Contents.MSGCOUNT == 0 &&
				decide(ki, []string{dom}, who.SigPubKey(), t) != nil {
				want = jsonmut.Text(jsonmut.Parse(ki.JSON()))
			}
		}
	}
	r.Outcome(fmt.Sprint("fetched: ", want != nil))
	if failed != (want == nil) {
		return nil, vk.Badf("fetch", "failed: %v, should be accepted: %v", failed, want != nil)
	}
	if want == nil {
		want = before
	}
	k, _ := raw(text(who, ".UIDContent.SIGKEY.HASH"))
	ki, err := db.GetPublicKeyInit(b64(h512(k)))
	var have []byte
	if err == nil {
		have = jsonmut.Text(jsonmut.Parse(ki.JSON()))
	} else if err != sql.ErrNoRows && !strings.Contains(err.Error(), sql.ErrNoRows.Error()) {
		return nil, vk.Badf("fetch", "%v", err)
	}
	if !bytes.Equal(have, want) {
		return nil, vk.Badf("fetch", "stored %s, should be %s", have, want)
	}
	return want, nil
}

func fetching() {
	make := func(m *uid.Message, na, nb uint64, seed string) *uid.KeyInit {
		ki, _, _, err := m.KeyInit(0, na, nb, true, dom, "mix@"+dom, "nym", vk.NewRand("fetch"+seed))
		must(err)
		return ki
	}
	k0, k1, k2 := make(pub, now+1000, 0, "0"), make(pub, now+2000, 0, "1"), make(pub1, now+1000, 0, "2")
	km, ko := make(mallory, now+1000, 0, "m"), make(own, now+1000, 0, "o")
	ans := func(doc []byte) []byte { return js(map[string]string{"KeyInit": string(doc)}) }
	both := base.With(func(db *ck.DB) { must(db.AddPublicUID(pub1, 7)) })
	had := base.With(func(db *ck.DB) { must(db.AddPublicKeyInit(k1)) })
	d1 := jsonmut.Text(jsonmut.Parse(k1.JSON()))
	one := func(desc string, t *ck.Template, id string, who *uid.Message, tm int64, before, answer []byte) {
		clock.Freeze(tm)
		defer clock.Freeze(now)
		do("fetch: "+desc, func() error {
			db := t.Open()
			defer db.Drop()
			after, err := fetch(db, id, who, tm, before, answer)
			if err != nil {
				return err
			}
			if who != nil && tm == now {
				k := k0
				if who == pub1 {
					k = k2
				} else if who == mallory {
					k = km
				} else if who == own {
					k = ko
				}
				if _, err := fetch(db, id, who, tm, after, ans(k.JSON())); err != nil {
					return err
				}
			}
			r.Trace()
			return nil
		})
	}
	type job struct {
		desc   string
		t      *ck.Template
		id     string
		who    *uid.Message
		tm     int64
		before []byte
		answer []byte
	}
	var jobs []job
	ids := map[string]*uid.Message{"bob@" + dom: pub, "Bob@" + strings.ToUpper(dom): pub, "mallory@" + dom: mallory, "alice@" + dom: own,
		"nobody@" + dom: nil, "bob@example.com": nil, "b": nil}
	kis := map[string]*uid.KeyInit{"k0": k0, "k1": k1, "k2": k2, "km": km, "ko": ko}
	for id, who := range ids {
		for name, k := range kis {
			jobs = append(jobs, job{name + " for " + id, base, id, who, now, nil, ans(k.JSON())})
			if who == pub {
				jobs = append(jobs, job{name + " updated for " + id, both, id, pub1, now, nil, ans(k.JSON())},
					job{name + " again for " + id, had, id, pub, now, d1, ans(k.JSON())})
			}
		}
	}
	for _, d := range []int64{-2000000000, -1000, 999, 1000, 1001, 1999, 2000, 2001, 100000000} {
		tm := now + d
		if tm < 1 {
			tm = 1
		}
		jobs = append(jobs, job{fmt.Sprintf("k0 at %d", tm), base, "bob@" + dom, pub, tm, nil, ans(k0.JSON())},
			job{fmt.Sprintf("k0 at %d, had k1", tm), had, "bob@" + dom, pub, tm, d1, ans(k0.JSON())})
	}
	muts := append(jsonmut.All(k0.JSON(), r.Thorough()), jsonmut.Raw(k0.JSON())...)
	for _, m := range muts {
		jobs = append(jobs, job{m.Path + " " + m.What, base, "bob@" + dom, pub, now, nil, ans(m.Doc)})
		if r.Thorough() {
			jobs = append(jobs, job{m.Path + " " + m.What + " again", had, "bob@" + dom, pub, now, d1, ans(m.Doc)})
		}
	}
	for _, m := range jsonmut.All(ans(k0.JSON()), false) {
		if !strings.HasPrefix(m.What, "char ") {
			jobs = append(jobs, job{"answer " + m.Path + " " + m.What, base, "bob@" + dom, pub, now, nil, m.Doc})
		}
	}
	for _, d := range []string{"", "null", "{}", "[]", "7", `"x"`, "true", `{"KeyInit":null}`, `{"KeyInit":{}}`, `{"KeyInit":"null"}`, `{"KeyInit":"{}"}`, `{"KeyInit":""}`} {
		j := job{"answer " + d, had, "bob@" + dom, pub, now, d1, []byte(d)}
		if d == "" {
			j.answer = nil
		}
		jobs = append(jobs, j)
	}
	// messages signed rightly which are to be refused
	u := &user{id: pub.Identity(), msg: pub, ki: k0, uris: []string{dom}}
	a, _ := open(k0, u.sig32())
	forge := func(what string, f func(c *uid.KeyInit)) {
		jobs = append(jobs, job{"forged " + what, had, "bob@" + dom, pub, now, d1, ans(u.forge(a.text(), f).JSON())})
	}
	for _, repo := range []string{"", "example.com", "MUTE.one"} {
		repo := repo
		forge("repository "+repo, func(c *uid.KeyInit) { c.Contents.REPOURI = repo })
	}
	for _, v := range []string{"", "1.1", "2.0"} {
		v := v
		forge("version "+v, func(c *uid.KeyInit) { c.Contents.VERSION = v })
	}
	for _, n := range []uint64{1, 2, 1 << 63} {
		n := n
		forge(fmt.Sprint("count ", n), func(c *uid.KeyInit) { c.Contents.MSGCOUNT = n })
	}
	forge("end", func(c *uid.KeyInit) { c.Contents.NOTAFTER = now - 1 })
	forge("times", func(c *uid.KeyInit) { c.Contents.NOTBEFORE = c.Contents.NOTAFTER })
	forge("key", func(c *uid.KeyInit) { c.Contents.SIGKEYHASH = km.Contents.SIGKEYHASH })
	forge("nothing", nil)
	for i, txt := range []string{"null", "{}", `{"PFKEYS":[]}`, strings.Replace(string(a.text()), "ECDHE25519", "ED25519", 1)} {
		jobs = append(jobs, job{fmt.Sprint("forged anchor ", i), had, "bob@" + dom, pub, now, d1, ans(u.forge([]byte(txt), nil).JSON())})
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		one(j.desc, j.t, j.id, j.who, j.tm, j.before, j.answer)
	})
}

func flushing() {
	flush := func(db *ck.DB, id string, who *uid.Message, answer []byte) error {
		calls := 0
		var bad error
		failed, err := command(db, "keyinit flush --id "+id, []string{ks.SigPubKey()}, func(m string, p map[string]interface{}) []byte {
			calls++
			if m != "KeyInitRepository.FlushKeyInit" {
				bad = vk.Badf("flush", "asked %s", m)
				return nil
			}
			if who == nil {
				return answer
			}
			n, _ := p["Nonce"].(json.Number)
			t, err := n.Int64()
			s, _ := p["Signature"].(string)
			sig, _ := raw(s)
			key, _ := raw(who.SigPubKey())
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(t))
			if p["SigPubKey"] != who.SigPubKey() || err != nil || t != now || !ed25519.Verify(key, b[:], sig) {
				bad = vk.Badf("flush", "asked with %v", p)
			}
			return answer
		})
		if err != nil {
			return err
		}
		if bad != nil {
			return bad
		}
		if ok := who != nil && answer != nil; failed == ok {
			return vk.Badf("flush", "failed: %v, the server did it: %v", failed, ok)
		}
		if (calls == 1) != (who != nil) {
			return vk.Badf("flush", "asked %d times", calls)
		}
		return nil
	}
	updated := base.With(func(db *ck.DB) { must(db.AddPrivateUID(own1)) })
	for id, who := range map[string]*uid.Message{"alice@" + dom: own, "Alice@Mute.one": own, "bob@" + dom: nil, "nobody@" + dom: nil, "x": nil} {
		for _, answer := range []string{"", "{}", `{"x":1}`} {
			for k, t := range []*ck.Template{base, updated} {
				id, who, t := id, who, t
				if who != nil && k == 1 {
					who = own1
				}
				a := []byte(answer)
				if answer == "" {
					a = nil
				}
				do(fmt.Sprintf("flush %s: %q %d", id, answer, k), func() error {
					db := t.Open()
					defer db.Drop()
					if err := flush(db, id, who, a); err != nil || who == nil {
						return err
					}
					s, err := publish(db, who, "m", "n", "t", []string{ks.SigPubKey()}, nil)
					if err != nil {
						return err
					}
					if err := flush(db, id, who, a); err != nil {
						return err
					}
					r.Trace()
					return kept(db, s, who)
				})
			}
		}
	}
}

func engine() {
	engineWorld()
	publishing()
	fetching()
	flushing()
	if eng != nil && !eng.Dead() {
		eng.Close()
	}
}
