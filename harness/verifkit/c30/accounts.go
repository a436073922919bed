package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"

	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/jsonmut"
)

// account is an account, at its server and at the default one.
type account struct {
	mu      sync.Mutex
	pub     [ed25519.PublicKeySize]byte
	badCert bool
	counter uint64 // last one used
	replays int    // requests to refuse as replayed
	bump    uint64 // by which the counter went on meanwhile
	answer  []byte // the result of a JSON call, or the body
	raw     bool   // answer is the whole body
	fail    string // error of a JSON call
	drop    bool
	seen    []request
	strange []string
}

// request is one that was made.
type request struct {
	host, what string
	params     map[string]interface{}
	counter    uint64
}

var (
	byKeyMu sync.Mutex
	byKey   = map[string]*account{}
)

func serveHTTP(w http.ResponseWriter, q *http.Request) {
	b, _ := ioutil.ReadAll(q.Body)
	host, _, _ := net.SplitHostPort(q.Host)
	var req struct {
		Method string
		Params map[string]interface{}
		Id     json.RawMessage
	}
	rq := request{host: host, what: q.Method + " " + q.URL.Path, params: map[string]interface{}{}}
	var token string
	switch q.URL.Path {
	case "/account":
		if json.Unmarshal(b, &req) != nil {
			http.Error(w, "bad request", 400)
			return
		}
		rq.what += " " + req.Method
		rq.params = req.Params
		token, _ = req.Params["AuthToken"].(string)
	case "/message":
		v, _ := url.ParseQuery(string(b))
		token = v.Get("authtoken")
		rq.params["messageid"] = v.Get("messageid")
	default:
		for k := range q.URL.Query() {
			rq.params[k] = q.URL.Query().Get(k)
		}
	}
	a, _ := server(host).(*account)
	var at walletauth.AuthToken
	if token != "" {
		at, _ = base64.StdEncoding.DecodeString(token)
		if len(at) >= 32 {
			byKeyMu.Lock()
			if x := byKey[string(at[:32])]; x != nil {
				a = x
			}
			byKeyMu.Unlock()
		}
	}
	if a == nil {
		http.Error(w, "nobody", 404)
		return
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	replay := ""
	if token != "" || q.URL.Path == "/account" || q.URL.Path == "/message" {
		delete(rq.params, "AuthToken")
		p, _, n, err := at.CheckToken()
		if err != nil || *p != a.pub {
			a.strange = append(a.strange, fmt.Sprintf("token %x: %v", []byte(at), err))
			return
		}
		rq.counter = n
		if a.replays > 0 {
			a.replays--
			a.counter = n + a.bump
		}
		if n <= a.counter {
			replay = fmt.Sprintf("ErrReplay: %d", a.counter)
		} else {
			a.counter = n
		}
	}
	a.seen = append(a.seen, rq)
	jsonError := func(s string) {
		m, _ := json.Marshal(s)
		fmt.Fprintf(w, `{"jsonrpc":"2.0","error":{"code":-32000,"message":%s},"id":%s}`, m, req.Id)
	}
	switch {
	case a.drop:
		c, _, err := w.(http.Hijacker).Hijack()
		must(err)
		c.Close()
	case replay != "" && q.URL.Path == "/account":
		jsonError(replay)
	case replay != "":
		fmt.Fprintf(w, "ERROR: %s", replay)
	case q.URL.Path == "/account" && a.fail != "":
		jsonError(a.fail)
	case q.URL.Path != "/account" && a.fail != "":
		fmt.Fprintf(w, "ERROR: %s", a.fail)
	case a.raw || q.URL.Path != "/account":
		w.Write(a.answer)
	default:
		fmt.Fprintf(w, `{"jsonrpc":"2.0","result":%s,"id":%s}`, a.answer, req.Id)
	}
}

// rpc is a call to an account server.
type rpc struct {
	name   string
	what   string
	auth   bool
	params map[string]interface{}
	deflt  bool   // goes to the default server
	good   []byte // a good answer
	call   func(key *[ed25519.PrivateKeySize]byte, server string, cert []byte) (interface{}, error)
	// expect decides about an answer: what it means, and whether it is one
	// at all; free if the answer need not be decided.
	expect func(doc []byte) (v interface{}, ok, free bool)
}

func num(v interface{}) (int64, bool, bool) {
	n, ok := v.(json.Number)
	if !ok {
		return 0, false, false
	}
	f, err := n.Float64()
	if err != nil || f != float64(int64(f)) || f > 1<<62 || f < -1<<62 {
		return 0, true, true // no meaning
	}
	return int64(f), true, false
}

func object(doc []byte) (m map[string]interface{}, ok bool) {
	var v interface{}
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return nil, false
	}
	m, ok = v.(map[string]interface{})
	return
}

type listed struct {
	ID         string
	T, Nano, R int64
	Key        string
}

var messageID = []byte("id of a message with 32 bytes...")

func rpcs() []rpc {
	uk := strings.Repeat("a7", 32)
	list := `{"Messages":[` +
		`{"MessageID":"` + hex.EncodeToString(messageID) + `","ReceiveTime":1700000001,"ReceiveTimeNano":1700000001000000000,"ReadTime":0,"UserKey":"` + uk + `"},` +
		`{"MessageID":"0102","ReceiveTime":1700000002,"ReceiveTimeNano":1700000002000000000,"ReadTime":1700000009,"UserKey":"` + strings.Repeat("0b", 32) + `"}]}`
	pay := func(known string) rpc {
		return rpc{name: "pay, server known: " + fmt.Sprint(known != ""), what: "POST /account AccountServer.LoadAccount", auth: true, deflt: known == "",
			params: map[string]interface{}{"PayToken": base64.StdEncoding.EncodeToString([]byte("payment"))},
			good:   []byte(`{"Server":"7.accounts.mute.one"}`),
			call: func(k *[ed25519.PrivateKeySize]byte, s string, cert []byte) (interface{}, error) {
				if known == "" {
					s = ""
				}
				return client.PayAccount(k, []byte("payment"), s, cert)
			},
			expect: func(doc []byte) (interface{}, bool, bool) {
				m, _ := object(doc)
				s, ok := m["Server"].(string)
				return s, ok, false
			}}
	}
	return []rpc{pay(""), pay("x"),
		{name: "delete", what: "POST /account AccountServer.DeleteAccount", auth: true, good: []byte(`{"Result":true}`),
			call: func(k *[ed25519.PrivateKeySize]byte, s string, cert []byte) (interface{}, error) {
				return true, client.DeleteAccount(k, s, cert)
			},
			expect: func(doc []byte) (interface{}, bool, bool) {
				m, _ := object(doc)
				b, _ := m["Result"].(bool)
				return true, b, false
			}},
		{name: "state", what: "POST /account AccountServer.AccountStat", auth: true, good: []byte(`{"LoadTime":1700000000}`),
			call: func(k *[ed25519.PrivateKeySize]byte, s string, cert []byte) (interface{}, error) {
				return client.AccountStat(k, s, cert)
			},
			expect: func(doc []byte) (interface{}, bool, bool) {
				m, _ := object(doc)
				return num3(m["LoadTime"])
			}},
		{name: "list", what: "POST /account AccountServer.ListMessages", auth: true, good: []byte(list),
			params: map[string]interface{}{"LastReceiveTime": 1699999999.0},
			call: func(k *[ed25519.PrivateKeySize]byte, s string, cert []byte) (interface{}, error) {
				ms, err := client.ListMessages(k, 1699999999, s, cert)
				var l []listed
				for _, m := range ms {
					l = append(l, listed{hex.EncodeToString(m.MessageID), m.ReceiveTime, m.ReceiveTimeNano, m.ReadTime, hex.EncodeToString(m.UserKey[:])})
				}
				return l, err
			},
			expect: func(doc []byte) (interface{}, bool, bool) {
				m, _ := object(doc)
				x, ok := m["Messages"].([]interface{})
				if !ok {
					return nil, false, false
				}
				var l []listed
				for _, e := range x {
					o, ok := e.(map[string]interface{})
					if !ok {
						return nil, false, false
					}
					id, ok1 := o["MessageID"].(string)
					key, ok2 := o["UserKey"].(string)
					t, ok3, f3 := num(o["ReceiveTime"])
					n, ok4, f4 := num(o["ReceiveTimeNano"])
					rd, ok5, f5 := num(o["ReadTime"])
					if !ok1 || !ok2 || !ok3 || !ok4 || !ok5 {
						return nil, false, false
					}
					if f3 || f4 || f5 {
						return nil, true, true
					}
					idb, e1 := hex.DecodeString(id)
					kb, e2 := hex.DecodeString(key)
					if e1 != nil || e2 != nil {
						return nil, false, false
					}
					if len(kb) != ed25519.PublicKeySize {
						return nil, true, true
					}
					l = append(l, listed{hex.EncodeToString(idb), t, n, rd, hex.EncodeToString(kb)})
				}
				return l, true, false
			}},
		{name: "fetch", what: "POST /message", auth: true, good: client.WriteMail("mix@mute.one", "you@mute.one", bytes.Repeat([]byte{0, 1, 2, 0xff, '\n'}, 50)),
			params: map[string]interface{}{"messageid": hex.EncodeToString(messageID)},
			call: func(k *[ed25519.PrivateKeySize]byte, s string, cert []byte) (interface{}, error) {
				return client.FetchMessage(k, messageID, s, cert)
			},
			expect: func(doc []byte) (interface{}, bool, bool) {
				if bytes.HasPrefix(doc, []byte("ERROR:")) || len(doc) < 7 {
					return nil, false, false
				}
				b, err := client.ReadMail(doc) // decided by C24
				return b, err == nil, false
			}},
		{name: "revoke", what: "GET /revoke", good: []byte("REVOKED: it"),
			params: map[string]interface{}{"revokeid": hex.EncodeToString(messageID)},
			call: func(k *[ed25519.PrivateKeySize]byte, s string, cert []byte) (interface{}, error) {
				return client.RevokeMessage(messageID, s, cert)
			},
			expect: func(doc []byte) (interface{}, bool, bool) {
				return true, bytes.HasPrefix(doc, []byte("REVOKED")), string(doc) == "REVOKED"
			}},
		{name: "keys", what: "GET /keys", good: []byte(`{"Addresses":[{"Mixaddress":"a@mute.one","Pubkey":"AAAA","Expire":1900000000}],"Sign":"AQID"}`),
			call: func(k *[ed25519.PrivateKeySize]byte, s string, cert []byte) (interface{}, error) {
				return client.GetMixKeys(s, cert)
			},
			expect: func(doc []byte) (interface{}, bool, bool) {
				st := new(mixaddr.AddressStatement)
				err := json.Unmarshal(doc, st)
				return st, err == nil, false
			}},
	}
}

func num3(v interface{}) (interface{}, bool, bool) {
	n, ok, free := num(v)
	return n, ok, free
}

var seq struct {
	sync.Mutex
	n int
}

// with runs f with an account of its own.
func with(set func(a *account), f func(a *account, key *[ed25519.PrivateKeySize]byte, ip string) error) error {
	seq.Lock()
	seq.n++
	n := seq.n
	seq.Unlock()
	pub, priv, err := ed25519.GenerateKey(&vk.CtrRand{Seed: fmt.Sprint("account", n)})
	must(err)
	a := &account{}
	copy(a.pub[:], pub)
	var key [ed25519.PrivateKeySize]byte
	copy(key[:], priv)
	set(a)
	ip := register(a)
	byKeyMu.Lock()
	byKey[string(pub)] = a
	byKeyMu.Unlock()
	defer func() {
		unregister(ip)
		byKeyMu.Lock()
		delete(byKey, string(pub))
		byKeyMu.Unlock()
	}()
	return f(a, &key, ip)
}

var errGuard = errors.New("panics")

// attempt makes a call; a crash is a violation.
func (p rpc) attempt(key *[ed25519.PrivateKeySize]byte, ip string, cert []byte) (v interface{}, err error, panicked interface{}) {
	defer func() { panicked = recover() }()
	v, err = p.call(key, ip, cert)
	return
}

// check makes a call and decides it.
func (p rpc) check(set func(a *account), cert []byte, reach bool, calls int, ok bool, want interface{}, free bool, fail string) error {
	return with(set, func(a *account, key *[ed25519.PrivateKeySize]byte, ip string) error {
		v, err, pan := p.attempt(key, ip, cert)
		a.mu.Lock()
		defer a.mu.Unlock()
		if pan != nil {
			return vk.Badf("crash", "%s: crashes: %v", p.name, pan)
		}
		if len(a.strange) > 0 {
			return vk.Badf("token", "%s: %v", p.name, a.strange)
		}
		if !reach {
			if len(a.seen) > 0 {
				return vk.Badf("certificate", "%s: talks to a server without certificate", p.name)
			}
			if err == nil {
				return vk.Badf("certificate", "%s: succeeds without reaching the server", p.name)
			}
			return nil
		}
		if len(a.seen) != calls {
			return vk.Badf("requests", "%s: %d requests, expected %d", p.name, len(a.seen), calls)
		}
		last := uint64(0)
		for i, q := range a.seen {
			host := ip
			if p.deflt {
				host = client.DefaultAccountServer
			}
			if q.host != host {
				return vk.Badf("server", "%s: request to %s instead of %s", p.name, q.host, host)
			}
			if q.what != p.what {
				return vk.Badf("request", "%s: %s", p.name, q.what)
			}
			if len(q.params) != len(p.params) || len(p.params) > 0 && !reflect.DeepEqual(q.params, p.params) {
				return vk.Badf("request", "%s: %v", p.name, q.params)
			}
			if p.auth && (i > 0 && q.counter != last+a.bump+1) {
				return vk.Badf("counter", "%s: counter %d after %d was refused", p.name, q.counter, last+a.bump)
			}
			last = q.counter
		}
		if free {
			return nil
		}
		if (err == nil) != ok {
			return vk.Badf("result", "%s: %v, %v", p.name, v, err)
		}
		if ok && !reflect.DeepEqual(v, want) {
			return vk.Badf("value", "%s: %v instead of %v", p.name, v, want)
		}
		if got := strings.TrimRight(fmt.Sprint(err), " "); fail != "" && got != fail && got != "ERROR: "+fail {
			return vk.Badf("error", "%s: %v instead of %s", p.name, err, fail)
		}
		r.Outcome(fmt.Sprintf("%s %v", p.name, ok))
		return nil
	})
}

func accounts() {
	type job struct {
		d string
		f func() error
	}
	var jobs []job
	add := func(d string, f func() error) { jobs = append(jobs, job{d, f}) }
	for _, p := range rpcs() {
		p := p
		want, ok, free := p.expect(p.good)
		if !ok || free {
			r.Fail("setup", p.name, "")
			return
		}
		// certificates
		for _, bad := range []bool{false, true} {
			for _, c := range []struct {
				n    string
				pem  []byte
				good bool
			}{{"own", ca.pem, true}, {"other", other.pem, false}, {"rubbish", []byte("rubbish"), false}, {"empty", []byte{}, false}, {"none", nil, p.what[0] == 'G' || p.name == "fetch"}} {
				bad, c := bad, c
				good := c.good && !bad || bad && c.n == "other"
				add(fmt.Sprintf("%s, CA %s, server of another: %v", p.name, c.n, bad), func() error {
					if p.deflt && bad {
						return nil // the default server's certificate stays
					}
					return p.check(func(a *account) { a.answer, a.badCert = p.good, bad }, c.pem, good, 1, true, want, false, "")
				})
			}
		}
		// counters
		if p.auth {
			for n := 0; n <= 5; n++ {
				for _, bump := range []uint64{0, 1, 1000, 1 << 40, 1<<62 - 1} {
					n, bump := n, bump
					if bump == 1<<62-1 && n > 1 {
						continue
					}
					add(fmt.Sprintf("%s, replay detected %d times, counter up by %d", p.name, n, bump), func() error {
						good, calls := true, n+1
						fail := ""
						if n > 3 {
							good, calls, fail = false, 4, walletauth.ErrReplay.Error()
						}
						return p.check(func(a *account) { a.answer, a.replays, a.bump = p.good, n, bump }, ca.pem, true, calls, good, want, false, fail)
					})
				}
			}
		}
		// errors
		for _, e := range []string{"try again", "accountdb: Nothing found", "ErrReplay", "ErrReplay: ", "ErrReplay: x", "ErrReplay: -1", "ErrReplay: 18446744073709551616", "x", "REVOKED"} {
			e := e
			add(fmt.Sprintf("%s, error %q", p.name, e), func() error {
				if p.name == "keys" {
					return p.check(func(a *account) { a.fail = e }, ca.pem, true, 1, false, nil, false, "")
				}
				return p.check(func(a *account) { a.fail = e }, ca.pem, true, 1, false, nil, false, strings.TrimRight(e, " "))
			})
		}
		add(p.name+", connection lost", func() error {
			return with(func(a *account) { a.drop = true }, func(a *account, key *[ed25519.PrivateKeySize]byte, ip string) error {
				if _, err, pan := p.attempt(key, ip, ca.pem); err == nil || pan != nil {
					return vk.Badf("lost", "%s: %v %v", p.name, err, pan)
				}
				return nil
			})
		})
		// answers
		answer := func(what string, doc []byte, raw bool) {
			doc = append([]byte{}, doc...)
			add(fmt.Sprintf("%s, answer %s: %.300q", p.name, what, doc), func() error {
				var v interface{}
				var ok, free bool
				if !raw {
					v, ok, free = p.expect(doc)
				}
				return p.check(func(a *account) { a.answer, a.raw = doc, raw }, ca.pem, true, 1, ok, v, free, "")
			})
		}
		if p.what == "POST /message" || p.what == "GET /revoke" {
			for n := 0; n <= len(p.good); n++ {
				answer("cut", p.good[:n], false)
			}
			for _, s := range []string{"", "ERROR", "ERROR:", "ERROR: ", "ERROR:x", "ERROR: x", "ERRORx: y", "REVOKED", "REVOKED\n", "revoked: x", "REVOKEX: yy", "NOT REVOKED", "ERROR: REVOKED", "\r\n\r\nAAAA", "\r\n\r\nAAA", "a: b\r\n\r\n", "a: b\r\n\r\nAA==\r\n"} {
				answer("text", []byte(s), false)
			}
			for i := range p.good {
				m := append([]byte{}, p.good...)
				m[i] ^= 0x20
				answer("altered", m, false)
			}
			continue
		}
		for _, m := range jsonmut.All(p.good, r.Thorough()) {
			answer(m.Path+" "+m.What, m.Doc, false)
		}
		for _, s := range []string{"null", "{}", "[]", "1", `"x"`, "true", `{"Messages":[]}`, `{"Messages":[{}]}`, `{"Messages":[[]]}`, `{"Messages":[1]}`, `{"Messages":["x"]}`, `{"Messages":[null]}`} {
			answer("other", []byte(s), false)
		}
		if p.what != "GET /keys" {
			for _, s := range []string{"", "rubbish", "{", "null", "[]", "{}", `{"jsonrpc":"2.0"}`, `{"result":null}`, "<html>"} {
				answer("body", []byte(s), true)
			}
		} else {
			for _, s := range []string{"", "rubbish", "{"} {
				answer("body", []byte(s), false)
			}
		}
	}
	r.Parallel(len(jobs), func(i int) {
		r.Eval(jobs[i].d)
		r.Trace()
		r.Case(jobs[i].d, jobs[i].f)
	})
	r.Note("account requests", len(jobs))
}
