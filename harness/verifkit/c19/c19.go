// C19: the wallet's exchanges with the wallet server, issuers and the key
// lookup server. Every interaction of every operation with a server or the
// wallet's store fails in every way of a list, or is the last before the
// process ends, alone and in pairs; afterwards everything works again, and no
// token paid for may be missing, and none may have been made up.
package main

import (
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/common/token"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	"github.com/mutecomm/mute/verifkit/guardkit"
	"github.com/mutecomm/mute/verifkit/jsonmut"
)

var r *vk.R

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

type scenario struct {
	name  string
	form  form
	setup func(w *world)
	op    func(p *process) error // performs the operation and judges its result
}

// give puts a token into the wallet.
func (w *world) give(owner guardkit.Pair, own bool, u string) []byte {
	for i, is := range w.issuers {
		if is.Usage != u {
			continue
		}
		k := w.keys[i][0]
		t := is.Issue(k, owner.Pub)
		enc, err := t.Marshal()
		must(err)
		e := client.TokenEntry{Hash: t.Hash(), Token: enc, OwnerPubKey: owner.Pub, Usage: u, Expire: k.PublicKey.Expire, Renewable: true, CanReissue: true}
		if own {
			e.OwnerPrivKey = owner.Priv
		}
		must(w.proc.st.Storage.SetToken(e))
		// the client knows the keys of the tokens it has
		_, err = packetClient(w.proc.c).Keypool.LoadKey(&k.PublicKey)
		if err == nil {
			must(packetClient(w.proc.c).Keypool.SaveKey(k.PublicKey.KeyID))
		}
		w.given++
		return e.Hash
	}
	panic(u)
}

func get(u string, owner *[32]byte) func(p *process) error {
	return func(p *process) error {
		e, err := p.c.GetToken(u, owner)
		if err != nil {
			if e != nil {
				return vk.Badf("token and error", "%v", err)
			}
			return p.told(err)
		}
		return p.w.handed(e, u, owner)
	}
}

// fetched judges a hash returned.
func (p *process) fetched(h []byte, err error, u string, owner *[32]byte) error {
	if err != nil {
		return p.told(err)
	}
	if p.ended {
		return nil
	}
	if h == nil {
		return vk.Badf("success reported without a token", "")
	}
	e, err := p.st.Storage.GetToken(h, -1)
	if err != nil {
		return vk.Badf("success reported without a token", "%v", err)
	}
	if err := p.w.genuine(e); err != nil {
		return err
	}
	switch {
	case e.Usage != u:
		return vk.Badf("token for another usage obtained", "%s", e.Usage)
	case owner != nil && *e.OwnerPubKey != *owner:
		return vk.Badf("token for another owner obtained", "%x", *e.OwnerPubKey)
	case owner == nil && e.OwnerPrivKey == nil:
		return vk.Badf("own token obtained without its key", "%x", *e.OwnerPubKey)
	case p.w.spent[string(h)]:
		return vk.Badf("spent token obtained", "%x", h)
	}
	return nil
}

func fetch(u string, owner *[32]byte) func(p *process) error {
	return func(p *process) error {
		h, err := p.c.WalletToken(u, owner)
		return p.fetched(h, err, u, owner)
	}
}

func exchange(hash *[]byte, owner *[32]byte) func(p *process) error {
	return func(p *process) error {
		h, err := p.c.ReissueToken(*hash, owner)
		return p.fetched(h, err, usage, owner)
	}
}

func scenarios() []*scenario {
	var l []*scenario
	add := func(name string, f form, setup func(w *world), op func(p *process) error) {
		l = append(l, &scenario{name, f, setup, op})
	}
	for i, n := range []string{"plain", "renewable", "single"} {
		f := form(i)
		add("get token for alice, "+n, f, nil, get(usage, alice.Pub))
		add("wallet token for alice, "+n, f, nil, fetch(usage, alice.Pub))
		add("wallet token for nobody, "+n, f, nil, func(p *process) error {
			h, err := p.c.WalletToken(usage, nil)
			if err == client.ErrNeedReissue {
				if f != single && len(p.plan) == 0 {
					return vk.Badf("exchange not done", "%v", err)
				}
				err = nil
			}
			return p.fetched(h, err, usage, nil)
		})
	}
	add("get token for alice from an own one", plain, func(w *world) { w.give(me, true, usage) }, get(usage, alice.Pub))
	add("get token for alice with one of bob and of another usage", plain, func(w *world) {
		w.give(bob, false, usage)
		w.give(alice, false, "UID")
		w.give(me, true, "UID")
	}, get(usage, alice.Pub))
	add("get token for anybody", plain, func(w *world) { w.give(alice, false, usage); w.give(bob, false, usage) }, get(usage, nil))
	add("get token for anybody without one", plain, nil, get(usage, nil))
	var h []byte
	own := func(w *world) { h = w.give(me, true, usage) }
	add("exchange for bob", plain, own, exchange(&h, bob.Pub))
	add("exchange for nobody", plain, own, exchange(&h, nil))
	add("exchange of a token locked", plain, own, func(p *process) error {
		p.st.Storage.LockToken(h)
		got, err := p.c.ReissueToken(h, bob.Pub)
		if err == nil {
			return vk.Badf("locked token exchanged", "%x", got)
		}
		if p.st.Storage.LockToken(h) > 0 {
			return vk.Badf("lock of somebody else released", "%v", err)
		}
		return p.told(err)
	})
	add("exchange begun for alice continued for bob", plain, func(w *world) {
		own(w)
		w.proc.run(plan{4: lostReply}, func() error { _, err := w.proc.c.ReissueToken(h, alice.Pub); return err })
	}, exchange(&h, bob.Pub))
	add("two tokens", plain, nil, func(p *process) error {
		if err := get(usage, alice.Pub)(p); err != nil {
			return err
		}
		return get(usage, bob.Pub)(p)
	})
	for i, n := range []string{"for the wallet", "for bob", "for nobody", "without signature", "of another usage", "of an unknown issuer", "of an expired key"} {
		i := i
		add("receive a token "+n, plain, func(w *world) {
			is, k := w.issuers[0], w.keys[0][1]
			o := me.Pub
			switch i {
			case 1:
				o = bob.Pub
			case 2:
				o = nil
			case 4:
				is, k = w.issuers[1], w.keys[1][0]
			case 5:
				is, k = w.issuers[3], w.keys[3][0]
			case 6:
				k = w.keys[0][2]
			}
			if i == 0 {
				w.given++
			}
			h = is.IssueBytes(k, o)
			if i == 3 {
				var err error
				h, err = token.New(&k.PublicKey.KeyID, me.Pub).Marshal()
				must(err)
			}
		}, func(p *process) error { return receive(p, h, i == 0) })
	}
	var hash []byte
	add("receive a token the wallet has got", plain, func(w *world) {
		hash = w.give(me, true, usage)
		e, err := w.proc.st.Storage.GetToken(hash, -1)
		must(err)
		h = e.Token
	}, func(p *process) error {
		err := p.c.ReceiveToken(usage, h)
		if e, err := p.st.Storage.GetToken(hash, -1); !p.w.spent[string(hash)] && (err != nil || e.OwnerPrivKey == nil) {
			return vk.Badf("known token overwritten", "%v", err)
		}
		if err == nil {
			return vk.Badf("known token received", "")
		}
		return p.told(err)
	})
	add("get the issuers' keys", plain, nil, func(p *process) error {
		return p.told(p.c.GetVerifyKeys())
	})
	return l
}

// receive receives a token which is the wallet's or not.
func receive(p *process, enc []byte, good bool) error {
	err := p.c.ReceiveToken(usage, enc)
	if p.ended {
		return nil
	}
	t, terr := token.Unmarshal(enc)
	must(terr)
	e, _ := p.st.Storage.GetToken(t.Hash(), -1)
	if err != nil {
		if good && len(p.plan) == 0 && (p.c.LastError != client.ErrTokenKnown || e == nil) {
			return vk.Badf("token not received", "%v (%v)", err, p.c.LastError)
		}
		return p.told(err)
	}
	if !good {
		return vk.Badf("bad token received", "%x", t.Hash())
	}
	if e == nil {
		return vk.Badf("success reported without a token", "")
	}
	return p.w.genuine(e)
}

// ---- faults

var (
	lostRequest = &fault{name: "request lost", lost: true}
	crashBefore = &fault{name: "the process ends before", crash: true}
	failed      = &fault{name: "fails", err: errStore}
)

func same(a guardkit.Reply) guardkit.Reply { return a }

func raw(s string) *fault {
	return &fault{name: "answer " + s, reply: func(a guardkit.Reply) guardkit.Reply { return guardkit.Reply{Raw: []byte(s + " ")} }}
}

func refuse(s string) *fault { return &fault{name: "refuses: " + s, refuse: s} }

var (
	lostReply  = &fault{name: "reply lost", reply: func(a guardkit.Reply) guardkit.Reply { return guardkit.Reply{Drop: true} }}
	crashAfter = &fault{name: "the process ends after", crash: true, reply: same}
	garbage    = raw("<html>")
)

var refusals = map[string][]string{
	"WalletServer.GetToken": {"walletserver: server error", "walletserver: no such user", "walletserver: bad token", "walletserver: insufficient funds",
		"ErrReplay: 0", "ErrReplay: 7", "ErrReplay: 18446744073709551615", "ErrReplay: x", "ErrReplay: ", "ErrReplay"},
	"PublicService.LookupKey":  {"keylookup: server error", "keylookup: key not found"},
	"PublicService.VerifyKeys": {"keylookup: server error"},
	"ServiceGuard.GetParams":   {"issuer: server errror", "issuer: wrong issuer", "issuer: bad issuer"},
	"ServiceGuard.Reissue": {"issuer: parameter and Token usage mismatch", "issuer: parameters have expired", "issuer: wrong calltype", "issuer: server errror",
		"issuer: parameter double spend", "issuer: bad package", "issuer: owner signature verification failed", "issuer: wrong issuer",
		"issuer: bad usage", "issuer: bad issuer", "issuer: bad signature in token", "issuer: parameters were mixed"},
}

// lies are refusals after which the client may throw a token away.
var lies = []string{"issuer: token double spend", "issuer: token expired"}

// field replaces a field of a reply by another content a server could send.
func field(what, name string, v func() string) *fault {
	return &fault{name: name + " is " + what, reply: func(a guardkit.Reply) guardkit.Reply {
		m := make(map[string]string)
		if old, ok := a.Result.(map[string]string); ok {
			for k, x := range old {
				m[k] = x
			}
			m[name] = v()
		}
		return guardkit.Reply{Result: m}
	}}
}

// contents are honest contents in the wrong place.
func contents(w **world, method string) []*fault {
	var l []*fault
	for i := 0; i < 4; i++ {
		for j := 0; j < 3; j++ {
			i, j := i, j
			n := fmt.Sprintf("of key %d of issuer %d", j, i)
			k := func() string { return encKey((*w).keys[i][j]) }
			switch method {
			case "PublicService.LookupKey":
				l = append(l, field(n, "Key", k))
			case "PublicService.VerifyKeys":
				if j == 0 {
					l = append(l, field("nothing but issuer "+fmt.Sprint(i), "KeyList", func() string { return hex.EncodeToString((*w).issuers[i].Pub[:]) }))
				}
				if i == 3 {
					n := []string{"issuer 3, signed by issuer 3", "issuer 3, signed by the root with its key replaced", "issuer 3"}[j]
					l = append(l, &fault{name: "the issuers' keys are " + n, reply: func(a guardkit.Reply) guardkit.Reply {
						k := (*w).issuers[3]
						list := hex.EncodeToString(k.Pub[:])
						m := map[string]string{"PublicKey": hex.EncodeToString(root.Pub[:]), "KeyList": list,
							"Signature": hex.EncodeToString(ed25519.Sign(bob.Priv[:], []byte(list)))}
						if j == 0 {
							m["PublicKey"] = hex.EncodeToString(bob.Pub[:])
						}
						if j == 2 {
							m["Signature"] = ""
						}
						return guardkit.Reply{Result: m}
					}})
				}
			case "WalletServer.GetToken":
				if i != 0 || j != 0 {
					l = append(l, field(n, "PubKeyUsed", k), field(n, "Token", func() string {
						return b64((*w).issuers[i].IssueBytes((*w).keys[i][j], me.Pub))
					}))
				}
				l = append(l, field(n, "Params", func() string { return b64((*w).issuers[i].Params((*w).keys[i][j], false)) }))
			case "ServiceGuard.GetParams":
				if i != 0 || j == 2 {
					l = append(l, field(n, "Packet", func() string { return b64((*w).issuers[i].Params((*w).keys[i][j], false)) }))
				}
			case "ServiceGuard.Reissue":
				l = append(l, field(n, "PubkeyUsed", k))
			}
		}
	}
	if method == "WalletServer.GetToken" {
		l = append(l, field("of bob", "Token", func() string { return b64((*w).issuers[0].IssueBytes((*w).keys[0][0], bob.Pub)) }),
			field("of nobody", "Token", func() string { return b64((*w).issuers[0].IssueBytes((*w).keys[0][0], nil)) }),
			field("not signed", "Token", func() string {
				b, err := token.New(&(*w).keys[0][0].PublicKey.KeyID, me.Pub).Marshal()
				must(err)
				return b64(b)
			}))
	}
	return l
}

func faults(w **world, e event, few bool) []*fault {
	if !e.server {
		return []*fault{crashBefore, failed}
	}
	l := []*fault{crashBefore, crashAfter, lostRequest, lostReply, garbage, refuse(refusals[e.name][0])}
	if few {
		return l
	}
	for _, s := range []string{"", "{}", "null", "[]", "7", `{"jsonrpc":"2.0","result":null,"id":1}`, `{"jsonrpc":"2.0","result":[],"id":1}`,
		`{"jsonrpc":"2.0","result":{},"id":1}`, `{"jsonrpc":"2.0","result":"x","id":1}`, `{"jsonrpc":"2.0","error":null}`, `{"jsonrpc":"2.0","error":"x"}`,
		`{"jsonrpc":"2.0","error":{}}`, `{"jsonrpc":"2.0","error":{"code":7,"message":null}}`, `{"jsonrpc":"2.0","error":[]}`} {
		l = append(l, raw(s))
	}
	for _, s := range refusals[e.name][1:] {
		l = append(l, refuse(s))
	}
	l = append(l, refuse("something else"))
	if strings.HasPrefix(e.name, "ServiceGuard.") {
		for _, s := range lies {
			f := refuse(s)
			f.liar = true
			l = append(l, f)
		}
	}
	return append(l, contents(w, e.name)...)
}

// ---- histories

// attempt is one try of the operation with at most one fault, and what
// happens before the next.
type attempt struct {
	at    int
	f     *fault
	after string // "", "restart", "hours", "params"
}

func (a attempt) String() string {
	s := "without fault"
	if a.f != nil {
		s = fmt.Sprintf("event %d: %s", a.at, a.f.name)
	}
	if a.after != "" {
		s += ", then " + a.after
	}
	return s
}

var current *world

// clean lists the events of an operation without faults after the attempts.
func (s *scenario) clean(before ...attempt) (l []event) {
	if err := vk.Guard(func() error {
		_, err := s.history(func(p *process) { l = append([]event(nil), p.events...) }, before...)
		return err
	}); err != nil {
		r.Note("clean run of "+s.name, err.Error())
	}
	return
}

// history makes the attempts and then brings everything to an end.
func (s *scenario) history(seen func(p *process), as ...attempt) (w *world, err error) {
	w = newWorld(s.form)
	defer w.Close()
	current = w
	p := w.start(nil)
	clock.Advance(10)
	if s.setup != nil {
		s.setup(w)
	}
	r.Trace()
	liar := false
	for _, a := range append(as, attempt{}) {
		pl := plan{}
		if a.f != nil {
			pl[a.at] = a.f
			liar = liar || a.f.liar
		}
		r.Trans()
		ended, err := p.run(pl, func() error { return s.op(p) })
		if err != nil {
			return w, err
		}
		if ended {
			p = w.restart(nil)
		}
		if seen != nil && a.f == nil {
			seen(p)
			return w, nil
		}
		if err := w.sound(); err != nil {
			return w, err
		}
		r.State(fmt.Sprintf("%s|%d|%d|%d|%d|%x", s.name, w.issued, len(w.spent), w.live(), w.counter, p.st.Storage.GetInReissue()))
		switch a.after {
		case "restart":
			p = w.restart(nil)
		case "hours":
			clock.Advance(3 * 3600)
		case "params":
			w.expireParams()
		}
	}
	return w, w.finish(p, !liar)
}

// finish lets a client with healthy servers get a token and finish whatever
// it has begun, and counts the tokens.
func (w *world) finish(p *process, all bool) error {
	p.plan = nil
	const tries = 8 // the client uses a credential at most four times
	try := func(what string, f func() error, done func() bool) error {
		var last error
		for i := 0; i < tries; i++ {
			last = f()
			if b, ok := last.(*vk.Bad); ok {
				return b
			}
			if done != nil && done() || done == nil && last == nil {
				return nil
			}
		}
		return vk.Badf(what, "%v (%v)", last, p.c.LastError)
	}
	if err := try("no token can be got any more", func() error {
		e, err := p.c.GetToken(usage, alice.Pub)
		if err != nil {
			return err
		}
		return w.handed(e, usage, alice.Pub)
	}, nil); err != nil {
		return err
	}
	for i := 0; i < 4; i++ {
		h := p.st.Storage.GetInReissue()
		if h == nil {
			break
		}
		if err := try("interrupted exchange cannot be finished", func() error {
			n, err := p.c.ReissueToken(h, nil)
			if err != nil {
				return err
			}
			e, err := p.st.Storage.GetToken(n, -1)
			if err != nil {
				return vk.Badf("success reported without a token", "%v", err)
			}
			return w.genuine(e)
		}, func() bool { return string(p.st.Storage.GetInReissue()) != string(h) }); err != nil {
			if !all {
				return nil
			}
			return err
		}
	}
	if err := try("no token can be got from the wallet server any more", func() error {
		h, err := p.c.WalletToken(usage, bob.Pub)
		if err != nil {
			return err
		}
		return p.fetched(h, err, usage, bob.Pub)
	}, nil); err != nil {
		return err
	}
	if err := try("no token can be got any more after one from the wallet server", func() error {
		e, err := p.c.GetToken(usage, carol.Pub)
		if err != nil {
			return err
		}
		return w.handed(e, usage, carol.Pub)
	}, nil); err != nil {
		return err
	}
	if err := w.sound(); err != nil {
		return err
	}
	if n := w.live(); all && n < w.issued+w.given {
		return vk.Badf("token lost", "%d of %d are left", n, w.issued+w.given)
	}
	return nil
}

func singles(l []*scenario) {
	n := 0
	for _, s := range l {
		s := s
		ev := s.clean()
		r.Sample("%s: %v", s.name, names(ev))
		if len(ev) == 0 {
			do(s.name+" without faults", func() error { _, err := s.history(nil); return err })
			continue
		}
		for _, after := range []string{"", "restart", "hours", "params"} {
			for at := range ev {
				for _, f := range append([]*fault{nil}, faults(&current, ev[at], false)...) {
					if n++; !vk.Mine(n) {
						continue
					}
					if r.Expired() {
						r.Cap("single faults")
						return
					}
					a := attempt{at, f, after}
					do(fmt.Sprintf("%s, %v (%s)", s.name, a, ev[at].name), func() error { _, err := s.history(nil, a); return err })
				}
			}
		}
	}
}

// owners changes the owner between an attempt that fails and the next one.
func owners() {
	n := 0
	for _, x := range []*[32]byte{nil, alice.Pub, bob.Pub} {
		for _, y := range []*[32]byte{nil, alice.Pub, bob.Pub} {
			if x == y {
				continue
			}
			x, y := x, y
			calls := 0
			var h []byte
			name := map[*[32]byte]string{nil: "nobody", alice.Pub: "alice", bob.Pub: "bob"}
			s := &scenario{"exchange for " + name[x] + ", then for " + name[y], plain, func(w *world) { calls = 0; h = w.give(me, true, usage) }, func(p *process) error {
				o := y
				if calls++; calls == 1 {
					o = x
				}
				got, err := p.c.ReissueToken(h, o)
				if o == nil && err == nil && got != nil && calls > 1 {
					// finishes what was begun, whoever it was for
					e, err := p.st.Storage.GetToken(got, -1)
					if err != nil {
						return vk.Badf("success reported without a token", "%v", err)
					}
					return p.w.genuine(e)
				}
				return p.fetched(got, err, usage, o)
			}}
			ev := s.clean()
			for at := range ev {
				for _, f := range faults(&current, ev[at], false) {
					for _, after := range []string{"", "restart", "params"} {
						if n++; !vk.Mine(n) {
							continue
						}
						if r.Expired() {
							r.Cap("owners")
							return
						}
						a := attempt{at, f, after}
						do(fmt.Sprintf("%s, %v (%s)", s.name, a, ev[at].name), func() error { _, err := s.history(nil, a); return err })
					}
				}
			}
		}
	}
}

func names(l []event) (s []string) {
	for _, e := range l {
		s = append(s, e.name)
	}
	return
}

func altered(l []*scenario) {
	n := 0
	for _, s := range l {
		s := s
		ev := s.clean()
		for at, e := range ev {
			if !e.server {
				continue
			}
			for _, m := range jsonmut.All(e.reply, r.Thorough()) {
				if n++; !vk.Mine(n) {
					continue
				}
				if r.Expired() {
					r.Cap("altered replies")
					return
				}
				doc := m.Doc
				a := attempt{at, &fault{name: m.Path + " " + m.What, reply: func(guardkit.Reply) guardkit.Reply {
					return guardkit.Reply{Result: json.RawMessage(doc)}
				}}, ""}
				do(fmt.Sprintf("%s, altered reply, %v (%s)", s.name, a, e.name), func() error { _, err := s.history(nil, a); return err })
			}
		}
	}
}

func pairs(l []*scenario) {
	n := 0
	for _, s := range l {
		s := s
		ev := s.clean()
		for at := range ev {
			for _, f := range faults(&current, ev[at], true) {
				afters := []string{"", "restart"}
				if r.Thorough() {
					afters = []string{"", "restart", "hours", "params"}
				}
				for _, after := range afters {
					if n++; !vk.Mine(n) {
						continue
					}
					a := attempt{at, f, after}
					ev2 := s.clean(a)
					for at2 := range ev2 {
						for _, f2 := range faults(&current, ev2[at2], true) {
							if r.Expired() {
								r.Cap("pairs of faults")
								return
							}
							b := attempt{at2, f2, ""}
							do(fmt.Sprintf("%s, %v (%s); %v (%s)", s.name, a, ev[at].name, b, ev2[at2].name), func() error { _, err := s.history(nil, a, b); return err })
						}
					}
				}
			}
		}
	}
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "runner" {
		runner(os.Args[2])
		return
	}
	r = vk.Start("C19")
	r.Fork()
	wait := startRunners()
	l := scenarios()
	owners()
	singles(l)
	pick := func(ns ...string) (o []*scenario) {
		for _, s := range l {
			for _, n := range ns {
				if s.name == n {
					o = append(o, s)
				}
			}
		}
		return
	}
	altered(pick("get token for alice, plain", "get token for alice, single"))
	pairs(pick("get token for alice, plain", "get token for alice, single", "exchange for bob", "wallet token for nobody, renewable"))
	wait()
	r.Done()
}
