package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha256"
	"database/sql"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	_ "github.com/mutecomm/go-sqlcipher/v4"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/guardrpc"
	"github.com/mutecomm/mute/serviceguard/client/keylookup"
	"github.com/mutecomm/mute/serviceguard/client/packetproto"
	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"github.com/mutecomm/mute/util/jsonclient"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	"github.com/mutecomm/mute/verifkit/guardkit"
	_ "github.com/mutecomm/mute/verifkit/quickdb"
	"github.com/ronperry/cryptoedge/jjm"
)

const (
	now  = 1500000000
	life = 40 * 24 * 3600
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var (
	root   = guardkit.NewPair(200)
	me     = guardkit.NewPair(201)
	alice  = guardkit.NewPair(202)
	bob    = guardkit.NewPair(203)
	carol  = guardkit.NewPair(204)
	usage  = "Message"
	errEnd = errors.New("the process has ended")
)

// ---- the servers

// form is how the wallet server issues tokens.
type form int

const (
	plain     form = iota // without parameters
	renewable             // with parameters that allow another exchange
	single                // with parameters that do not
)

// servers are the wallet server, the issuers and the key lookup server, as
// they should behave.
type servers struct {
	form    form
	issuers []*guardkit.Issuer // the first signs the tokens; the last is unknown to the key lookup server
	keys    [][]*signkeys.KeyPair

	counter uint64                       // of the last login
	cache   map[string]map[string]string // replies by credential
	issued  int                          // tokens given to the wallet
	spent   map[string]bool              // tokens exchanged or spent
	params  map[string]bool              // parameters used
	signed  map[string]map[string]string // replies by request
	mixed   map[string]bool              // parameters that are never taken
}

func newServers(f form) *servers {
	s := &servers{form: f, cache: make(map[string]map[string]string), spent: make(map[string]bool),
		params: make(map[string]bool), signed: make(map[string]map[string]string)}
	for i, u := range []string{usage, "UID", usage, usage} {
		is := guardkit.NewIssuer(byte(210+i), u)
		s.issuers = append(s.issuers, is)
		s.keys = append(s.keys, []*signkeys.KeyPair{is.Key(life), is.Key(2 * life), is.Key(1)})
	}
	return s
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func encKey(k *signkeys.KeyPair) string {
	b, err := k.PublicKey.Marshal()
	must(err)
	return b64(b)
}

func str(v interface{}) string { s, _ := v.(string); return s }

func fail(s string) guardkit.Reply { return guardkit.Reply{Err: s} }

// answer is what the servers answer.
func (s *servers) answer(c guardkit.Call) guardkit.Reply {
	switch c.Method {
	case "PublicService.VerifyKeys":
		var l []string
		for _, is := range s.issuers[:len(s.issuers)-1] {
			l = append(l, hex.EncodeToString(is.Pub[:]))
		}
		list := strings.Join(l, ", ")
		return guardkit.Reply{Result: map[string]string{"PublicKey": hex.EncodeToString(root.Pub[:]),
			"Signature": hex.EncodeToString(ed25519.Sign(root.Priv[:], []byte(list))), "KeyList": list}}
	case "PublicService.LookupKey":
		for _, ks := range s.keys[:len(s.keys)-1] {
			for _, k := range ks {
				if hex.EncodeToString(k.PublicKey.KeyID[:]) == str(c.Params["KeyID"]) {
					return guardkit.Reply{Result: map[string]string{"Key": encKey(k)}}
				}
			}
		}
		return fail("keylookup: key not found")
	case "WalletServer.GetToken":
		return s.walletToken(c)
	}
	for i, is := range s.issuers {
		if strings.HasSuffix(c.Path, hex.EncodeToString(is.Pub[:])) {
			switch c.Method {
			case "ServiceGuard.GetParams":
				return guardkit.Reply{Result: map[string]string{"Packet": b64(is.Params(s.keys[i][0], true))}}
			case "ServiceGuard.Reissue":
				return s.reissue(i, c)
			}
		}
	}
	return fail("no such method")
}

func (s *servers) walletToken(c guardkit.Call) guardkit.Reply {
	auth, err := base64.StdEncoding.DecodeString(str(c.Params["AuthToken"]))
	if err != nil {
		return fail("walletserver: bad token")
	}
	if a, ok := s.cache[string(auth)]; ok {
		return guardkit.Reply{Result: a}
	}
	pub, at, counter, err := walletauth.AuthToken(auth).CheckToken()
	if err != nil {
		return fail("walletserver: bad token")
	}
	if *pub != *me.Pub {
		return fail("walletserver: no such user")
	}
	if t := uint64(clock.Now().Unix()) / walletauth.SkewWindow; at > t+1 || at < t-1 {
		return fail("walletserver: bad token")
	}
	if counter <= s.counter {
		return fail(fmt.Sprintf("ErrReplay: %d", s.counter))
	}
	s.counter = counter
	for i, is := range s.issuers {
		if is.Usage != str(c.Params["Usage"]) {
			continue
		}
		k := s.keys[i][0]
		a := map[string]string{"Token": b64(is.IssueBytes(k, me.Pub)), "Params": "", "PubKeyUsed": encKey(k)}
		if s.form != plain {
			a["Params"] = b64(is.Params(k, s.form == renewable))
		}
		s.issued++
		s.cache[string(auth)] = a
		return guardkit.Reply{Result: a}
	}
	return fail("walletserver: insufficient funds")
}

// valid tells the key a token is validly signed with, nil if it is not.
func (s *servers) valid(enc []byte) (*token.Token, *signkeys.KeyPair) {
	t, err := token.Unmarshal(enc)
	if err != nil {
		return nil, nil
	}
	id, _ := t.Properties()
	for i, ks := range s.keys[:len(s.keys)-1] {
		for _, k := range ks {
			if k.PublicKey.KeyID != *id {
				continue
			}
			sig := t.GetSignature()
			if !s.issuers[i].Curve.Curve.IsOnCurve(sig.PointR.X, sig.PointR.Y) {
				return nil, nil
			}
			cs := jjm.NewClearSignature(&k.PublicKey.PublicKey)
			cs.PointR, cs.ScalarS, cs.ScalarR = sig.PointR, sig.ScalarS, sig.ScalarR
			ok, err := jjm.NewGenericBlindingClient(&k.PublicKey.PublicKey, s.issuers[i].Curve).Verify(cs, jjm.NewClearMessage(t.Hash()))
			if ok && err == nil {
				return t, k
			}
		}
	}
	return nil, nil
}

func (s *servers) reissue(i int, c guardkit.Call) guardkit.Reply {
	b, err := base64.StdEncoding.DecodeString(str(c.Params["Packet"]))
	if err != nil {
		return fail("issuer: bad package")
	}
	if a, ok := s.signed[string(b)]; ok {
		return guardkit.Reply{Result: a}
	}
	p, err := new(types.ReissuePacket).Unmarshal(b)
	if err != nil {
		return fail("issuer: bad package")
	}
	t, k := s.valid(p.Token)
	if t == nil {
		return fail("issuer: bad signature in token")
	}
	if k.PublicKey.Signer != *s.issuers[i].Pub {
		return fail("issuer: wrong issuer")
	}
	if k.PublicKey.Expire < clock.Now().Unix() {
		return fail("issuer: token expired")
	}
	_, owner := t.Properties()
	if p.Verify(owner) != nil {
		return fail("issuer: owner signature verification failed")
	}
	if s.spent[string(t.Hash())] {
		return fail("issuer: token double spend")
	}
	if s.mixed[string(p.Params)] {
		return fail(mixed)
	}
	if s.params[string(p.Params)] {
		return fail("issuer: parameter double spend")
	}
	reply, pub, err := s.issuers[i].Sign(p.Params, p.BlindToken)
	if err != nil {
		return fail(err.Error())
	}
	s.spent[string(t.Hash())], s.params[string(p.Params)] = true, true
	a := map[string]string{"Packet": b64(reply), "PubkeyUsed": b64(pub)}
	s.signed[string(b)] = a
	return guardkit.Reply{Result: a}
}

// mixed is what an issuer says of parameters it does not take, now or later.
const mixed = "issuer: parameters were mixed"

// mix makes the issuer refuse the parameters of a request for good.
func (s *servers) mix(c guardkit.Call) {
	if b, err := base64.StdEncoding.DecodeString(str(c.Params["Packet"])); err == nil {
		if p, err := new(types.ReissuePacket).Unmarshal(b); err == nil && len(p.Params) > 0 {
			if s.mixed == nil {
				s.mixed = make(map[string]bool)
			}
			s.mixed[string(p.Params)] = true
		}
	}
}

// expireParams makes the issuer forget the parameters it has given out.
func (s *servers) expireParams() {
	for i, is := range s.issuers {
		n := guardkit.NewIssuer(byte(210+i), is.Usage)
		var l []*signkeys.KeyPair
		for _, k := range s.keys[i] {
			l = append(l, k)
			n.Adopt(k)
		}
		n.Gen = is.Gen
		s.issuers[i], s.keys[i] = n, l
	}
}

// ---- the client's process

// event is an interaction of the client with a server or its store.
type event struct {
	server bool
	name   string
	reply  []byte // of a server
}

// fault is what goes wrong with an event.
type fault struct {
	name string
	// of servers
	refuse string                                // answered instead of the request being processed
	lost   bool                                  // the request
	reply  func(a guardkit.Reply) guardkit.Reply // what the server's reply is turned into
	// of the store
	err error
	// of both
	crash bool // the process ends just before; with reply, just after
	liar  bool // the answer is untrue in a way the client may believe
}

// plan maps the number of an event to what goes wrong with it.
type plan map[int]*fault

// process is a run of the client's program.
type process struct {
	w      *world
	c      *client.Client
	st     *store
	plan   plan
	events []event
	ended  bool
}

func (p *process) event(e event) *fault {
	f := p.plan[len(p.events)]
	p.events = append(p.events, e)
	return f
}

// world is everything outside of the process.
type world struct {
	*servers
	srv   *guardkit.Server
	db    *sql.DB
	proc  *process
	given int // tokens the wallet had at the beginning
}

func seed(name string) {
	rand.Reader = &vk.CtrRand{Seed: name}
	token.Rand, walletauth.Rand, packetproto.Rand = rand.Reader, rand.Reader, rand.Reader
}

func newWorld(f form) *world {
	clock.Freeze(now)
	seed("C19")
	w := &world{servers: newServers(f)}
	var err error
	w.db, err = sql.Open("sqlite3", ":memory:")
	must(err)
	w.db.SetMaxOpenConns(1)
	w.srv = guardkit.Serve(w.handle)
	client.TrustRoot = root.Pub
	keylookup.ServiceURL, walletrpc.ServiceURL, guardrpc.ServiceURL = w.srv.URL+"/lookup", w.srv.URL+"/wallet", "http://.host/rpc/"
	factory := func(u string, cert []byte) (*jsonclient.URLClient, error) {
		if w.proc.ended {
			panic(errEnd)
		}
		if i := strings.Index(u, ".host/"); i >= 0 {
			u = w.srv.URL + u[i+5:]
		}
		if f := w.proc.plan[len(w.proc.events)]; f != nil && f.crash && f.reply == nil {
			w.proc.ended = true
			panic(errEnd)
		}
		return jsonclient.New(u, cert)
	}
	keylookup.DefaultClientFactory, walletrpc.DefaultClientFactory, guardrpc.DefaultClientFactory = factory, factory, factory
	return w
}

func (w *world) Close() {
	w.srv.Close()
	w.db.Close()
}

func (w *world) handle(c guardkit.Call) guardkit.Reply {
	p := w.proc
	n := len(p.events)
	f := p.event(event{server: true, name: c.Method})
	switch {
	case f == nil:
		a := w.answer(c)
		p.events[n].reply, _ = json.Marshal(a.Result)
		return a
	case f.lost:
		return guardkit.Reply{Drop: true}
	case f.refuse != "":
		if f.refuse == mixed {
			w.mix(c)
		}
		return guardkit.Reply{Err: f.refuse}
	}
	a := w.answer(c)
	if f.crash {
		p.ended = true
	}
	if f.reply == nil {
		return a
	}
	return f.reply(a)
}

func newClient(w *world, st client.WalletStore) *client.Client {
	c, err := client.New([]types.Backend{{Type: "database", Value: w.db}}, st, me.Priv, nil)
	must(err)
	return c
}

// start starts the program as mutectrl does.
func (w *world) start(pl plan) *process {
	st, err := walletstore.New(w.db)
	must(err)
	p := &process{w: w}
	w.proc = p
	p.st = &store{Storage: st, p: p}
	p.c = newClient(w, p.st)
	p.c.GoOnline()
	must(p.c.GetVerifyKeys())
	p.plan, p.events = pl, nil
	return p
}

// restart starts the program anew after locks left behind have become too old.
func (w *world) restart(pl plan) *process {
	clock.Advance(2 * walletstore.MaxLockAge)
	return w.start(pl)
}

// run runs f with a plan; it reports whether the process ended.
func (p *process) run(pl plan, f func() error) (ended bool, err error) {
	p.plan, p.events = pl, nil
	defer func() {
		if p.ended {
			ended, err = true, nil
			if x := recover(); x != nil && x != errEnd {
				panic(x)
			}
		}
	}()
	err = f()
	return
}

// ---- the store, with faults

type store struct {
	*walletstore.Storage
	p *process
}

var errStore = errors.New("disk failure")

func (s *store) event(name string) error {
	if s.p.ended {
		panic(errEnd)
	}
	f := s.p.event(event{name: name})
	switch {
	case f == nil:
		return nil
	case f.crash:
		s.p.ended = true
		panic(errEnd)
	}
	return f.err
}

func (s *store) SetAuthToken(a []byte, n int) error {
	if err := s.event("SetAuthToken"); err != nil {
		return err
	}
	return s.Storage.SetAuthToken(a, n)
}

func (s *store) SetToken(t client.TokenEntry) error {
	if err := s.event("SetToken"); err != nil {
		return err
	}
	return s.Storage.SetToken(t)
}

func (s *store) GetToken(h []byte, id int64) (*client.TokenEntry, error) {
	if err := s.event("GetToken"); err != nil {
		return nil, err
	}
	return s.Storage.GetToken(h, id)
}

func (s *store) GetAndLockToken(u string, o *[32]byte) (*client.TokenEntry, error) {
	if err := s.event("GetAndLockToken"); err != nil {
		return nil, err
	}
	return s.Storage.GetAndLockToken(u, o)
}

func (s *store) FindToken(u string) (*client.TokenEntry, error) {
	if err := s.event("FindToken"); err != nil {
		return nil, err
	}
	return s.Storage.FindToken(u)
}

func (s *store) DelToken(h []byte) {
	if s.event("DelToken") == nil {
		s.Storage.DelToken(h)
	}
}

func (s *store) LockToken(h []byte) int64 {
	if s.event("LockToken") != nil {
		return -1
	}
	return s.Storage.LockToken(h)
}

func (s *store) SetVerifyKeys(k [][32]byte) {
	if s.event("SetVerifyKeys") == nil {
		s.Storage.SetVerifyKeys(k)
	}
}

// UnlockToken is called while a process that has ended unwinds.
func (s *store) UnlockToken(h []byte) {
	if s.p.ended {
		return
	}
	if s.event("UnlockToken") == nil {
		s.Storage.UnlockToken(h)
	}
}

// ---- the oracle

func (w *world) stored() []*client.TokenEntry {
	rows, err := w.db.Query("SELECT Hash FROM walletTokens ORDER BY Hash;")
	must(err)
	var hs []string
	for rows.Next() {
		var h string
		must(rows.Scan(&h))
		hs = append(hs, h)
	}
	rows.Close()
	var l []*client.TokenEntry
	for _, h := range hs {
		b, err := hex.DecodeString(h)
		must(err)
		t, err := w.proc.st.Storage.GetToken(b, -1)
		must(err)
		l = append(l, t)
	}
	return l
}

// genuine checks that a token the client has is what it takes it for.
func (w *world) genuine(e *client.TokenEntry) error {
	t, k := w.valid(e.Token)
	if t == nil {
		return vk.Badf("token accepted which does not verify", "%x", sha256.Sum256(e.Token))
	}
	_, o := t.Properties()
	if !bytes.Equal(t.Hash(), e.Hash) || (o == nil) != (e.OwnerPubKey == nil) || o != nil && *o != *e.OwnerPubKey ||
		e.Usage != k.PublicKey.Usage || e.Expire != k.PublicKey.Expire {
		return vk.Badf("token taken for another", "usage %s owner %x expires %d", e.Usage, e.OwnerPubKey, e.Expire)
	}
	if e.OwnerPrivKey != nil && !bytes.Equal(e.OwnerPrivKey[32:], e.OwnerPubKey[:]) {
		return vk.Badf("token with a wrong private key", "%x", e.Hash)
	}
	return nil
}

// live are the tokens in the wallet that can still be exchanged or spent.
func (w *world) live() int {
	n := 0
	for _, e := range w.stored() {
		if t, _ := w.valid(e.Token); t != nil && !w.spent[string(t.Hash())] {
			n++
		}
	}
	return n
}

// sound checks what holds at any time.
func (w *world) sound() error {
	for _, e := range w.stored() {
		if err := w.genuine(e); err != nil {
			return err
		}
	}
	bad := w.issuers[len(w.issuers)-1].Pub
	if packetClient(w.proc.c).Keypool.HasVerifyKey(bad, false) {
		return vk.Badf("issuer trusted whose key is not published", "%x", *bad)
	}
	for _, k := range w.proc.st.Storage.GetVerifyKeys() {
		if k == *bad {
			return vk.Badf("issuer's key stored which is not published", "%x", k)
		}
	}
	if n := w.live(); n > w.issued+w.given {
		return vk.Badf("tokens out of nothing", "%d of %d", n, w.issued+w.given)
	}
	return nil
}

// handed checks a token handed out for use by the owner, and uses it.
func (w *world) handed(e *client.TokenEntry, u string, owner *[32]byte) error {
	if e == nil {
		return vk.Badf("success reported without a token", "")
	}
	if err := w.genuine(e); err != nil {
		return err
	}
	if e.Usage != u || owner != nil && *e.OwnerPubKey != *owner {
		return vk.Badf("token for another usage or owner handed out", "usage %s owner %x", e.Usage, *e.OwnerPubKey)
	}
	if w.spent[string(e.Hash)] {
		return vk.Badf("spent token handed out", "%x", e.Hash)
	}
	if w.proc.st.Storage.LockToken(e.Hash) > 0 {
		return vk.Badf("token handed out is not locked", "%x", e.Hash)
	}
	return nil
}

// told checks the error an operation returned.
func (p *process) told(err error) error {
	switch err {
	case nil, client.ErrRetry, client.ErrFinal, client.ErrFatal, client.ErrOffline, client.ErrNeedReissue:
	default:
		return vk.Badf("undocumented error", "%v", err)
	}
	if err != nil && err != client.ErrNeedReissue && p.c.LastError == nil {
		return vk.Badf("error without details", "%v", err)
	}
	return nil
}
