// c06 compares the key database with a reference model on all sequences of
// operations, and conversations kept in it with the reference session store.
package main

import (
	"bytes"
	"crypto/ed25519"
	"database/sql"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"
	"unsafe"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cryptengine"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/world"
	_ "github.com/mutecomm/mute/verifkit/quickdb"
)

var pass = []byte("pass phrase")

// template database, copied for every sequence
var tmplDB, tmplKey []byte
var dbCount int64

func scratch() string {
	if d := os.Getenv("VK_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

func template() error {
	n := filepath.Join(scratch(), "template")
	if err := keydb.Create(n, pass, 1); err != nil {
		return err
	}
	var err error
	if tmplDB, err = ioutil.ReadFile(n + ".db"); err != nil {
		return err
	}
	tmplKey, err = ioutil.ReadFile(n + ".key")
	return err
}

// kdb is the system: an open key database.
type kdb struct {
	name string
	db   *keydb.KeyDB
	ce   *cryptengine.CryptEngine // session store on db
}

func open() (*kdb, error) {
	k := &kdb{name: filepath.Join(scratch(), fmt.Sprintf("k%d", atomic.AddInt64(&dbCount, 1)))}
	if err := ioutil.WriteFile(k.name+".db", tmplDB, 0600); err != nil {
		return nil, err
	}
	if err := ioutil.WriteFile(k.name+".key", tmplKey, 0600); err != nil {
		return nil, err
	}
	return k, k.open()
}

func (k *kdb) open() (err error) {
	if k.db, err = keydb.Open(k.name, pass); err != nil {
		return err
	}
	k.ce = engine(k.db)
	return nil
}

// engine returns a crypt engine working on db.
func engine(db *keydb.KeyDB) *cryptengine.CryptEngine {
	ce := cryptengine.New()
	v := reflect.ValueOf(ce).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf(db) {
			*(**keydb.KeyDB)(unsafe.Pointer(v.Field(i).UnsafeAddr())) = db
			return ce
		}
	}
	panic("crypt engine has no key database")
}

func (k *kdb) Close() {
	k.db.Close()
	os.Remove(k.name + ".db")
	os.Remove(k.name + ".key")
}

func (k *kdb) reopen() error {
	if err := k.db.Close(); err != nil {
		return err
	}
	return k.open()
}

// ref is the reference model.
type ref struct {
	sess   map[string]*msess
	states map[string]*session.State
	skeys  map[string][2]string
	values map[string]string
	chain  map[string]map[uint64]string
	priv   []privUID
	pub    []pubUID
	kipriv map[string]privKI // by public key hash
	kipub  map[string]string // by signature key hash: JSON
}

type msess struct {
	root, chain string
	n           uint64
	keys        map[string]string // "s0", "r0", ...
}

type privUID struct {
	u     *uid.Message
	reply string
}

type pubUID struct {
	u   *uid.Message
	pos uint64
}

type privKI struct{ json, sig, priv string }

func newRef() *ref {
	return &ref{map[string]*msess{}, map[string]*session.State{}, map[string][2]string{}, map[string]string{},
		map[string]map[uint64]string{}, nil, nil, map[string]privKI{}, map[string]string{}}
}

func ke(k *uid.KeyEntry) string {
	if k == nil {
		return "-"
	}
	return string(k.JSON())
}

func stateText(s *session.State) string {
	if s == nil {
		return "none"
	}
	return fmt.Sprintf("%d %d %d %s %s %s %s %q %v", s.SenderSessionCount, s.SenderMessageCount, s.MaxRecipientCount,
		ke(&s.RecipientTemp), ke(&s.SenderSessionPub), ke(s.NextSenderSessionPub), ke(s.NextRecipientSessionPubSeen),
		s.NymAddress, s.KeyInitSession)
}

// Key implements vk.Model.
func (m *ref) Key() string {
	var l []string
	for k, s := range m.sess {
		var ks []string
		for n, v := range s.keys {
			ks = append(ks, n+"="+v)
		}
		sort.Strings(ks)
		l = append(l, fmt.Sprint("sess ", k, s.root, s.chain, s.n, ks))
	}
	for k, s := range m.states {
		l = append(l, "state "+k+stateText(s))
	}
	for k, v := range m.skeys {
		l = append(l, fmt.Sprint("skey", k, v))
	}
	for k, v := range m.values {
		l = append(l, fmt.Sprint("value", k, v))
	}
	for d, c := range m.chain {
		l = append(l, fmt.Sprint("chain", d, c))
	}
	for _, p := range m.priv {
		l = append(l, fmt.Sprint("priv", string(p.u.JSON()), p.reply))
	}
	for _, p := range m.pub {
		l = append(l, fmt.Sprint("pub", string(p.u.JSON()), p.pos))
	}
	for k, v := range m.kipriv {
		l = append(l, fmt.Sprint("kipriv", k, v))
	}
	for k, v := range m.kipub {
		l = append(l, fmt.Sprint("kipub", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// universe
var (
	sessKeys = []string{"sess-A", "sess-B", "sess-C"}
	users    []*uid.Message // users[0], users[1]: same identity, versions 0 and 1; users[2]: another
	replies  []*uid.MessageReply
	kis      []*uid.KeyInit // kis[0], kis[1]: of users[0]; kis[2]: of users[2]
	kiHash   []string
	kiPriv   []string
	states   []*session.State
)

func k64(n string) string { return base64.Encode(cipher.SHA512([]byte(n))) }
func k32(n string) string { return base64.Encode(cipher.SHA256([]byte(n))) }

func setup() error {
	rnd := &vk.CtrRand{Seed: "c06"}
	vk.GoRand.Use(rnd)
	mk := func(name string) (*uid.Message, error) {
		return uid.Create(name, false, "", "", uid.Strict, hashchain.TestEntry, rnd)
	}
	a, err := mk("alice@mute.berlin")
	if err != nil {
		return err
	}
	a2, err := a.Update(rnd)
	if err != nil {
		return err
	}
	b, err := mk("bob@mute.one")
	if err != nil {
		return err
	}
	users = []*uid.Message{a, a2, b}
	srv, err := cipher.Ed25519Generate(rnd)
	if err != nil {
		return err
	}
	for i, u := range users {
		_, _, enc := u.Encrypt()
		replies = append(replies, uid.CreateReply(enc, hashchain.TestEntry, uint64(i), srv))
	}
	now := uint64(times.Now())
	for _, u := range []*uid.Message{a, a, b} {
		ki, h, p, err := u.KeyInit(0, now+10*times.Day, now-10, false, u.Domain(), "mix", "nym", rnd)
		if err != nil {
			return err
		}
		kis, kiHash, kiPriv = append(kis, ki), append(kiHash, h), append(kiPriv, p)
	}
	var es []*uid.KeyEntry
	for i := 0; i < 4; i++ {
		e := new(uid.KeyEntry)
		if err := e.InitDHKey(rnd); err != nil {
			return err
		}
		es = append(es, e)
	}
	states = []*session.State{
		{SenderSessionCount: 1, SenderMessageCount: 2, MaxRecipientCount: 3, RecipientTemp: *es[0], SenderSessionPub: *es[1],
			NymAddress: "nym1", KeyInitSession: true},
		{SenderSessionCount: 0, SenderMessageCount: 0, MaxRecipientCount: 0, RecipientTemp: *es[1], SenderSessionPub: *es[0],
			NextSenderSessionPub: es[2], NextRecipientSessionPubSeen: es[3], NymAddress: ""},
		{SenderSessionCount: 1 << 40, SenderMessageCount: 7, MaxRecipientCount: 1 << 33, RecipientTemp: *es[2], SenderSessionPub: *es[3],
			NextRecipientSessionPubSeen: es[1], NymAddress: "nym'2\"; --", KeyInitSession: true},
	}
	return nil
}

func fails(what string, err error) error {
	if err != nil {
		return vk.Badf("op-failed:"+strings.Fields(what)[0], "%s: %v", what, err)
	}
	return nil
}

func addSession(key string, n int) vk.Op {
	return vk.Op{Name: fmt.Sprintf("add session %s +%d", key, n), Do: func(s vk.Sys, mm vk.Model) error {
		m := mm.(*ref)
		x := m.sess[key]
		if x == nil {
			x = &msess{root: k64("root" + key), keys: map[string]string{}}
			m.sess[key] = x
		}
		x.chain = k32(fmt.Sprint("chain", key, x.n, n))
		var send, recv []string
		for i := 0; i < n; i++ {
			sk, rk := k64(fmt.Sprint("send", key, x.n)), k64(fmt.Sprint("recv", key, x.n))
			send, recv = append(send, sk), append(recv, rk)
			x.keys[fmt.Sprint("s", x.n)], x.keys[fmt.Sprint("r", x.n)] = sk, rk
			x.n++
		}
		return fails("StoreSession", s.(*kdb).ce.StoreSession(key, x.root, x.chain, send, recv))
	}}
}

func delKey(key string, sender bool, i uint64) vk.Op {
	d := "r"
	if sender {
		d = "s"
	}
	id := fmt.Sprint(d, i)
	return vk.Op{Name: fmt.Sprintf("del message key %s %s", key, id),
		Enabled: func(m vk.Model) bool { return m.(*ref).sess[key] != nil },
		Do: func(s vk.Sys, m vk.Model) error {
			delete(m.(*ref).sess[key].keys, id)
			return fails("DelMessageKey", s.(*kdb).ce.DelMessageKey(key, sender, i))
		}}
}

var reopen = vk.Op{Name: "reopen", Do: func(s vk.Sys, m vk.Model) error { return fails("reopen", s.(*kdb).reopen()) }}

func setState(key string, i int) vk.Op {
	return vk.Op{Name: fmt.Sprintf("set state %s to %d", key, i), Do: func(s vk.Sys, m vk.Model) error {
		m.(*ref).states[key] = states[i]
		return fails("SetSessionState", s.(*kdb).ce.SetSessionState(key, states[i]))
	}}
}

func addSKey(h string) vk.Op {
	return vk.Op{Name: "add session key " + h,
		Enabled: func(m vk.Model) bool { _, ok := m.(*ref).skeys[h]; return !ok },
		Do: func(s vk.Sys, m vk.Model) error {
			m.(*ref).skeys[h] = [2]string{"json" + h, "priv" + h}
			return fails("AddSessionKey", s.(*kdb).ce.AddSessionKey(h, "json"+h, "priv"+h, 5))
		}}
}

func delSKey(h string) vk.Op {
	return vk.Op{Name: "del private session key " + h, Do: func(s vk.Sys, mm vk.Model) error {
		m := mm.(*ref)
		if v, ok := m.skeys[h]; ok {
			m.skeys[h] = [2]string{v[0], ""}
		}
		return fails("DelPrivSessionKey", s.(*kdb).ce.DelPrivSessionKey(h))
	}}
}

func addValue(k, v string) vk.Op {
	return vk.Op{Name: fmt.Sprintf("set %s=%s", k, v), Do: func(s vk.Sys, m vk.Model) error {
		m.(*ref).values[k] = v
		return fails("AddValue", s.(*kdb).db.AddValue(k, v))
	}}
}

func addEntry(d string, pos uint64) vk.Op {
	return vk.Op{Name: fmt.Sprintf("add hash chain entry %s %d", d, pos),
		Enabled: func(m vk.Model) bool { _, ok := m.(*ref).chain[d][pos]; return !ok },
		Do: func(s vk.Sys, mm vk.Model) error {
			m := mm.(*ref)
			if m.chain[d] == nil {
				m.chain[d] = map[uint64]string{}
			}
			m.chain[d][pos] = fmt.Sprint("entry", d, pos)
			return fails("AddHashChainEntry", s.(*kdb).db.AddHashChainEntry(strings.ToUpper(d), pos, fmt.Sprint("entry", d, pos)))
		}}
}

func delChain(d string) vk.Op {
	return vk.Op{Name: "del hash chain " + d, Do: func(s vk.Sys, m vk.Model) error {
		delete(m.(*ref).chain, d)
		return fails("DelHashChain", s.(*kdb).db.DelHashChain(d))
	}}
}

func addPriv(i int) vk.Op {
	return vk.Op{Name: fmt.Sprintf("add private uid %d", i),
		Enabled: func(m vk.Model) bool {
			for _, p := range m.(*ref).priv {
				if p.u == users[i] {
					return false
				}
			}
			return true
		},
		Do: func(s vk.Sys, mm vk.Model) error {
			m := mm.(*ref)
			m.priv = append(m.priv, privUID{users[i], ""})
			return fails("AddPrivateUID", s.(*kdb).db.AddPrivateUID(users[i]))
		}}
}

func addReply(i int) vk.Op {
	return vk.Op{Name: fmt.Sprintf("add reply %d", i), Do: func(s vk.Sys, mm vk.Model) error {
		m := mm.(*ref)
		for j := range m.priv {
			if m.priv[j].u == users[i] {
				m.priv[j].reply = string(replies[i].JSON())
			}
		}
		return fails("AddPrivateUIDReply", s.(*kdb).db.AddPrivateUIDReply(users[i], replies[i]))
	}}
}

func delPriv(i int) vk.Op {
	return vk.Op{Name: fmt.Sprintf("del private uid %d", i), Do: func(s vk.Sys, mm vk.Model) error {
		m := mm.(*ref)
		var l []privUID
		for _, p := range m.priv {
			if p.u != users[i] {
				l = append(l, p)
			}
		}
		m.priv = l
		return fails("DelPrivateUID", s.(*kdb).db.DelPrivateUID(users[i]))
	}}
}

func addPub(i int, pos uint64) vk.Op {
	return vk.Op{Name: fmt.Sprintf("add public uid %d at %d", i, pos),
		Enabled: func(m vk.Model) bool {
			for _, p := range m.(*ref).pub {
				if p.pos == pos && p.u.Identity() == users[i].Identity() {
					return false
				}
			}
			return true
		},
		Do: func(s vk.Sys, mm vk.Model) error {
			m := mm.(*ref)
			m.pub = append(m.pub, pubUID{users[i], pos})
			return fails("AddPublicUID", s.(*kdb).db.AddPublicUID(users[i], pos))
		}}
}

func owner(i int) *uid.Message {
	if i == 2 {
		return users[2]
	}
	return users[0]
}

func addKIPriv(i int) vk.Op {
	return vk.Op{Name: fmt.Sprintf("add private key init %d", i),
		Enabled: func(m vk.Model) bool { _, ok := m.(*ref).kipriv[kiHash[i]]; return !ok },
		Do: func(s vk.Sys, m vk.Model) error {
			m.(*ref).kipriv[kiHash[i]] = privKI{string(kis[i].JSON()), owner(i).SigPubKey(), kiPriv[i]}
			return fails("AddPrivateKeyInit", s.(*kdb).db.AddPrivateKeyInit(kis[i], kiHash[i], owner(i).SigPubKey(), kiPriv[i], "sig"))
		}}
}

func addKIPub(i int) vk.Op {
	return vk.Op{Name: fmt.Sprintf("add public key init %d", i), Do: func(s vk.Sys, m vk.Model) error {
		m.(*ref).kipub[kis[i].SigKeyHash()] = string(kis[i].JSON())
		return fails("AddPublicKeyInit", s.(*kdb).db.AddPublicKeyInit(kis[i]))
	}}
}

// check compares everything that can be read.
func check(s vk.Sys, mm vk.Model) error {
	k, m := s.(*kdb), mm.(*ref)
	for _, key := range sessKeys {
		x := m.sess[key]
		if k.ce.HasSession(key) != (x != nil) {
			return vk.Badf("session", "HasSession(%s) wrong", key)
		}
		n, err := k.ce.NumMessageKeys(key)
		if x == nil {
			if err == nil {
				return vk.Badf("session", "number of keys of missing session %s: %d", key, n)
			}
		} else {
			if err != nil || n != x.n {
				return vk.Badf("num-keys", "number of keys of %s: %d, %v instead of %d", key, n, err, x.n)
			}
			rh, err := k.ce.GetRootKeyHash(key)
			if err != nil || base64.Encode(rh[:]) != x.root {
				return vk.Badf("root-key-hash", "root key hash of %s: %v", key, err)
			}
			ck, err := k.ce.GetChainKey(key)
			if err != nil || base64.Encode(ck[:]) != x.chain {
				return vk.Badf("chain-key", "chain key of %s is not the last written one (%v)", key, err)
			}
		}
		for i := uint64(0); i < 6; i++ {
			for _, d := range []string{"s", "r"} {
				want := ""
				if x != nil {
					want = x.keys[fmt.Sprint(d, i)]
				}
				mk, err := k.ce.GetMessageKey(key, d == "s", i)
				got := ""
				if err == nil {
					got = base64.Encode(mk[:])
				}
				if got != want {
					return vk.Badf("message-key", "message key %s%d of %s: %.10s (%v) instead of %.10s", d, i, key, got, err, want)
				}
			}
		}
	}
	for _, key := range []string{"st-A", "st-B"} {
		st, err := k.ce.GetSessionState(key)
		if err != nil || stateText(st) != stateText(m.states[key]) {
			return vk.Badf("session-state", "state of %s: %s (%v) instead of %s", key, stateText(st), err, stateText(m.states[key]))
		}
	}
	for _, h := range []string{"h1", "h2"} {
		j, p, err := k.ce.GetSessionKey(h)
		w, ok := m.skeys[h]
		if ok != (err == nil) || (ok && (j != w[0] || p != w[1])) {
			return vk.Badf("session-key", "session key %s: %q %q %v instead of %q", h, j, p, err, w)
		}
	}
	for _, key := range []string{"x", "y"} {
		v, err := k.db.GetValue(key)
		if err != nil || v != m.values[key] {
			return vk.Badf("value", "value of %s: %q %v instead of %q", key, v, err, m.values[key])
		}
	}
	if v, err := k.db.Version(); err != nil || v != keydb.Version {
		return vk.Badf("version", "version: %q %v", v, err)
	}
	for _, d := range []string{"a.org", "b.org"} {
		c := m.chain[d]
		max, any := uint64(0), false
		for p := uint64(0); p < 4; p++ {
			e, err := k.db.GetHashChainEntry(d, p)
			if w, ok := c[p]; ok != (err == nil) || e != w {
				return vk.Badf("hash-chain", "entry %d of %s: %q %v instead of %q", p, d, e, err, w)
			} else if ok {
				max, any = p, true
			}
		}
		p, found, err := k.db.GetLastHashChainPos(d)
		if err != nil || found != any || p != max {
			return vk.Badf("hash-chain", "last position of %s: %d %v %v instead of %d %v", d, p, found, err, max, any)
		}
		e, err := k.db.GetLastHashChainEntry(d)
		if (err == nil) != any || (any && e != c[max]) {
			return vk.Badf("hash-chain", "last entry of %s: %q %v", d, e, err)
		}
	}
	ids := map[string]bool{}
	for _, p := range m.priv {
		ids[p.u.Identity()] = true
	}
	list, err := k.db.GetPrivateIdentities()
	if err != nil || len(list) != len(ids) {
		return vk.Badf("identities", "own identities: %v %v instead of %v", list, err, ids)
	}
	for _, id := range list {
		if !ids[id] {
			return vk.Badf("identities", "own identities: %v instead of %v", list, ids)
		}
	}
	for _, d := range []string{"mute.berlin", "MUTE.one"} {
		list, err := k.db.GetPrivateIdentitiesForDomain(d)
		n := 0
		for id := range ids {
			if strings.HasSuffix(id, "@"+strings.ToLower(d)) {
				n++
			}
		}
		if err != nil || len(list) != n || (n == 1 && !ids[list[0]]) {
			return vk.Badf("identities", "own identities of %s: %v %v", d, list, err)
		}
	}
	for _, id := range []string{users[0].Identity(), users[2].Identity()} {
		var w *privUID
		for i, p := range m.priv {
			if p.u.Identity() == id && (w == nil || p.u.UIDContent.MSGCOUNT > w.u.UIDContent.MSGCOUNT) {
				w = &m.priv[i]
			}
		}
		for _, with := range []bool{false, true} {
			u, reply, err := k.db.GetPrivateUID(id, with)
			if (err == nil) != (w != nil) {
				return vk.Badf("private-uid", "private uid of %s: %v", id, err)
			}
			if w == nil {
				continue
			}
			if !bytes.Equal(u.JSON(), w.u.JSON()) {
				return vk.Badf("private-uid", "private uid of %s is not the latest one stored", id)
			}
			r := ""
			if reply != nil {
				r = string(reply.JSON())
			}
			if r != w.reply {
				return vk.Badf("uid-reply", "reply to uid of %s: %q instead of %q", id, r, w.reply)
			}
			if with && (u.PrivateSigKey() != w.u.PrivateSigKey() || u.PrivateEncKey() != w.u.PrivateEncKey()) {
				return vk.Badf("uid-keys", "private keys of %s differ from those stored", id)
			}
		}
		for max := uint64(0); max < 5; max++ {
			var w *pubUID
			for i, p := range m.pub {
				if p.u.Identity() == id && p.pos <= max && (w == nil || p.pos > w.pos) {
					w = &m.pub[i]
				}
			}
			u, pos, found, err := k.db.GetPublicUID(id, max)
			if err != nil || found != (w != nil) {
				return vk.Badf("public-uid", "public uid of %s up to %d: %v %v", id, max, found, err)
			}
			if w != nil && (pos != w.pos || !bytes.Equal(u.JSON(), w.u.JSON())) {
				return vk.Badf("public-uid", "public uid of %s up to %d: the one at %d instead of %d", id, max, pos, w.pos)
			}
		}
	}
	for i, h := range kiHash {
		w, ok := m.kipriv[h]
		ki, sig, priv, err := k.db.GetPrivateKeyInit(h)
		if ok != (err == nil) || (ok && (string(ki.JSON()) != w.json || sig != w.sig || priv != w.priv)) {
			return vk.Badf("private-key-init", "private key init %d: %v", i, err)
		}
		e, err := k.ce.GetPrivateKeyEntry(h)
		if !ok {
			if err != session.ErrNoKeyEntry {
				return vk.Badf("private-key-entry", "missing private key entry %d: %v", i, err)
			}
		} else if err != nil || e.HASH != h || e.PrivateKey() != w.priv {
			return vk.Badf("private-key-entry", "private key entry %d: %v", i, err)
		}
	}
	for _, i := range []int{0, 2} {
		h := kis[i].SigKeyHash()
		w, ok := m.kipub[h]
		ki, err := k.db.GetPublicKeyInit(h)
		if !ok && err != sql.ErrNoRows || ok && (err != nil || string(ki.JSON()) != w) {
			return vk.Badf("public-key-init", "public key init of user %d is not the last one stored (%v)", i, err)
		}
		e, nym, err := k.ce.GetPublicKeyEntry(users[i])
		if !ok {
			if err != session.ErrNoKeyEntry {
				return vk.Badf("public-key-entry", "missing public key entry: %v", err)
			}
			continue
		}
		wki, _ := uid.NewJSONKeyInit([]byte(w))
		we, _ := wki.KeyEntryECDHE25519(users[i].SigPubKey())
		if err != nil || nym != "nym" || e.HASH != we.HASH || e.PUBKEY != we.PUBKEY {
			return vk.Badf("public-key-entry", "public key entry of user %d: %v", i, err)
		}
	}
	return nil
}

func explore(r *vk.R, name string, depth int, merge bool, ops ...vk.Op) {
	l := &vk.Lockstep{Name: name, Ops: ops, Depth: depth, Merge: merge, Check: check,
		New: func() (vk.Sys, vk.Model, error) {
			k, err := open()
			if err != nil {
				return nil, nil, err
			}
			return k, newRef(), nil
		}}
	ok := l.Explore(r)
	r.Note("run "+name, fmt.Sprintf("operations=%d depth=%d complete=%v", len(ops), depth, ok))
}

// conversations runs two-party conversations with the key database as session
// store and compares with the reference store after every step.
type turn struct {
	kind byte // 's' 0->1, 'S' 1->0, 'o' open oldest unopened, 'O' open newest unopened
	roll bool
}

func converse(seq []turn, numKeys uint64) error {
	var ps []*world.Party
	for _, n := range []string{"alice@mute.berlin", "bob@mute.berlin"} {
		p, err := world.NewParty(n, "c06conv")
		if err != nil {
			return err
		}
		ps = append(ps, p)
	}
	if err := world.Meet(ps...); err != nil {
		return err
	}
	var dbs []*kdb
	for i, p := range ps {
		k, err := open()
		if err != nil {
			return err
		}
		defer k.Close()
		dbs = append(dbs, k)
		vk.GoRand.Use(&vk.CtrRand{Seed: "c06ki" + p.Name})
		_ = i
	}
	// publish: own key inits go into the databases
	now := uint64(times.Now())
	for i, p := range ps {
		rnd := &vk.CtrRand{Seed: "c06ki" + p.Name}
		ki, h, priv, err := p.UID.KeyInit(0, now+10*times.Day, now-10, false, p.UID.Domain(), "mix", "nym of "+p.Name, rnd)
		if err != nil {
			return err
		}
		if err := dbs[i].db.AddPrivateKeyInit(ki, h, p.UID.SigPubKey(), priv, "sig"); err != nil {
			return fails("AddPrivateKeyInit", err)
		}
		if err := dbs[1-i].db.AddPublicKeyInit(ki); err != nil {
			return fails("AddPublicKeyInit", err)
		}
	}
	type mail struct {
		to      int
		enc     []byte
		content []byte
		open    bool
	}
	var mails []*mail
	for step, t := range seq {
		switch t.kind {
		case 's', 'S':
			from := 0
			if t.kind == 'S' {
				from = 1
			}
			ct := []byte(fmt.Sprintf("message of step %d", step))
			vk.GoRand.Use(&ps[from].Rand)
			enc, nym, err := ps[from].SendTo(dbs[from].ce, ps[1-from].UID, ct, step%2 == 0, t.roll, numKeys, msg.StatusOK)
			if err != nil {
				return vk.Badf("conversation:send", "step %d: %v", step, err)
			}
			if nym != "nym of "+ps[1-from].Name && nym != "nym:"+ps[1-from].Name {
				return vk.Badf("conversation:nym", "step %d: message goes to %q", step, nym)
			}
			mails = append(mails, &mail{1 - from, enc, ct, false})
		case 'o', 'O':
			var m *mail
			for i := range mails {
				x := mails[i]
				if t.kind == 'O' {
					x = mails[len(mails)-1-i]
				}
				if !x.open {
					m = x
					break
				}
			}
			if m == nil {
				return nil // nothing to open: covered by a shorter sequence
			}
			m.open = true
			vk.GoRand.Use(&ps[m.to].Rand)
			o, err := ps[m.to].OpenWith(dbs[m.to].ce, []*uid.Message{ps[m.to].UID}, m.enc, numKeys)
			if err != nil {
				return vk.Badf("conversation:open", "step %d: opening failed: %v", step, err)
			}
			if !bytes.Equal(o.Content, m.content) || o.Sender != ps[1-m.to].Name {
				return vk.Badf("conversation:content", "step %d: %q from %s", step, o.Content, o.Sender)
			}
			if o.Sig != "" {
				sig, _ := base64.Decode(o.Sig)
				pk := ps[1-m.to].UID.PublicSigKey32()
				if !ed25519.Verify(pk[:], cipher.SHA512(o.Content), sig) {
					return vk.Badf("conversation:signature", "step %d", step)
				}
			}
			if o, err := ps[m.to].OpenWith(dbs[m.to].ce, []*uid.Message{ps[m.to].UID}, m.enc, numKeys); err == nil {
				return vk.Badf("conversation:twice", "step %d: opened again: %q", step, o.Content)
			}
		case 'r':
			for _, k := range dbs {
				if err := k.reopen(); err != nil {
					return fails("reopen", err)
				}
			}
		}
	}
	return nil
}

func conversations(r *vk.R, depth int, numKeys uint64) {
	alphabet := []turn{{'s', false}, {'S', false}, {'s', true}, {'S', true}, {'o', false}, {'O', false}, {'r', false}}
	var seqs [][]turn
	var rec func(p []turn, pend, reopens int)
	rec = func(p []turn, pend, reopens int) {
		if len(p) == depth {
			seqs = append(seqs, append([]turn(nil), p...))
			return
		}
		for _, t := range alphabet {
			d, ro := pend, reopens
			switch t.kind {
			case 's', 'S':
				d++
			case 'o':
				d--
			case 'O':
				if pend == 1 {
					continue
				}
				d--
			case 'r':
				ro++
			}
			if d < 0 || ro > 1 || (len(p) == 0 && t.kind == 'S') {
				continue
			}
			rec(append(p, t), d, ro)
		}
	}
	rec(nil, 0, 0)
	ok := r.Parallel(len(seqs), func(i int) {
		desc := ""
		for _, t := range seqs[i] {
			desc += string(t.kind)
			if t.roll {
				desc += "+renew"
			}
			desc += " "
		}
		r.Case(fmt.Sprintf("conversation over key databases, %d keys ahead: %s", numKeys, desc), func() error { return converse(seqs[i], numKeys) })
		r.Trace()
		for range seqs[i] {
			r.Trans()
		}
	})
	r.Note(fmt.Sprintf("conversations depth %d keys %d", depth, numKeys), fmt.Sprintf("%d sequences, complete=%v", len(seqs), ok))
	r.Outcome("conversations over key databases")
}

func main() {
	world.Init()
	r := vk.Start("C06")
	r.Fork()
	if err := setup(); err == nil {
		err = template()
		if err != nil {
			r.Fail("setup", err.Error(), "creating a key database")
			r.Done()
			return
		}
	} else {
		r.Fail("setup", err.Error(), "creating users")
		r.Done()
		return
	}
	t := r.Thorough()
	pick := func(q, th int) int {
		if t {
			return th
		}
		return q
	}
	sessOps := []vk.Op{addSession("sess-A", 1), addSession("sess-A", 2), addSession("sess-B", 1), addSession("sess-C", 0),
		delKey("sess-A", true, 0), delKey("sess-A", false, 0), delKey("sess-A", true, 1), delKey("sess-B", false, 0), reopen}
	explore(r, "sessions", pick(4, 6), false, sessOps...)
	explore(r, "sessions, states merged", pick(6, 9), true, sessOps[0], sessOps[2], sessOps[4], sessOps[5], sessOps[7])
	explore(r, "states and session keys", pick(4, 5), false, setState("st-A", 0), setState("st-A", 1), setState("st-A", 2), setState("st-B", 0),
		addSKey("h1"), addSKey("h2"), delSKey("h1"), reopen)
	explore(r, "hash chains and values", pick(4, 5), false, addEntry("a.org", 0), addEntry("a.org", 2), addEntry("a.org", 1), addEntry("b.org", 1),
		delChain("a.org"), addValue("x", "1"), addValue("x", "2"), addValue("y", "1"), reopen)
	explore(r, "identities", pick(4, 5), false, addPriv(0), addPriv(1), addPriv(2), addReply(0), addReply(1), delPriv(0), delPriv(1), reopen)
	explore(r, "public identities and keys", pick(3, 4), false, addPub(0, 1), addPub(1, 3), addPub(2, 2), addPub(1, 0),
		addKIPriv(0), addKIPriv(1), addKIPriv(2), addKIPub(0), addKIPub(1), addKIPub(2), reopen)
	explore(r, "everything", pick(2, 3), false, addSession("sess-A", 1), delKey("sess-A", true, 0), setState("st-A", 0), addSKey("h1"), delSKey("h1"),
		addEntry("a.org", 0), delChain("a.org"), addValue("x", "1"), addPriv(0), addReply(0), delPriv(0), addPub(0, 1), addKIPriv(0), addKIPub(0),
		addSession("sess-B", 2), setState("st-B", 1), addPriv(2), addPub(2, 2), addKIPub(2), reopen)
	conversations(r, pick(5, 6), 1)
	conversations(r, pick(4, 6), 2)
	r.Done()
}
