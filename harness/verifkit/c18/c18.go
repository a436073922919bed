// C18: the wallet's token store. Histories of storing, locking, handing out,
// deleting and expiring tokens run in lockstep with a reference, also through
// a second handle and across reopening; every statement of every operation is
// made the last one before a crash; pairs of operations run at the same time
// under the race detector.
package main

import (
	"bytes"
	"crypto/ed25519"
	"database/sql"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	_ "github.com/mutecomm/mute/verifkit/quickdb"
)

var r *vk.R

const now = 1500000000

var (
	edge    = walletstore.ExpireEdge
	lockAge = walletstore.MaxLockAge
)

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func pub(b byte) *[ed25519.PublicKeySize]byte {
	var k [ed25519.PublicKeySize]byte
	for i := range k {
		k[i] = b + byte(i)
	}
	return &k
}

func priv(b byte) *[ed25519.PrivateKeySize]byte {
	var k [ed25519.PrivateKeySize]byte
	for i := range k {
		k[i] = b + byte(i)*3
	}
	return &k
}

func same32(a, b *[ed25519.PublicKeySize]byte) bool {
	return (a == nil) == (b == nil) && (a == nil || *a == *b)
}

func same64(a, b *[ed25519.PrivateKeySize]byte) bool {
	return (a == nil) == (b == nil) && (a == nil || *a == *b)
}

// differs tells which field of two tokens differs.
func differs(a, b *client.TokenEntry) string {
	switch {
	case !bytes.Equal(a.Hash, b.Hash):
		return "Hash"
	case !bytes.Equal(a.Token, b.Token):
		return "Token"
	case !bytes.Equal(a.Params, b.Params):
		return "Params"
	case !same32(a.OwnerPubKey, b.OwnerPubKey):
		return "OwnerPubKey"
	case !same64(a.OwnerPrivKey, b.OwnerPrivKey):
		return "OwnerPrivKey"
	case a.Renewable != b.Renewable:
		return "Renewable"
	case a.CanReissue != b.CanReissue:
		return "CanReissue"
	case a.Usage != b.Usage:
		return "Usage"
	case a.Expire != b.Expire:
		return "Expire"
	case !bytes.Equal(a.ServerPacket, b.ServerPacket):
		return "ServerPacket"
	case !bytes.Equal(a.BlindingFactors, b.BlindingFactors):
		return "BlindingFactors"
	case !same32(a.NewOwnerPubKey, b.NewOwnerPubKey):
		return "NewOwnerPubKey"
	case !same64(a.NewOwnerPrivKey, b.NewOwnerPrivKey):
		return "NewOwnerPrivKey"
	}
	return ""
}

var (
	me    = pub(1)
	meSec = priv(1)
	alice = pub(50)
	bob   = pub(90)
)

// tokens are the variants of the tokens used: variant 0 is the token as it
// comes, later ones are what it is updated to.
type universe struct {
	name   string
	tokens [][]client.TokenEntry
	depth  [2]int
}

func tok(n int, owner *[32]byte, self bool, usage string, expire int64) client.TokenEntry {
	t := client.TokenEntry{Hash: []byte(fmt.Sprintf("hash %d", n)), Token: []byte(fmt.Sprintf("token %d", n)), OwnerPubKey: owner,
		Usage: usage, Expire: expire, CanReissue: true}
	if self {
		t.OwnerPrivKey = meSec
	}
	return t
}

func universes() []universe {
	renew := func(t client.TokenEntry) client.TokenEntry { t.Renewable = true; return t }
	params := func(t client.TokenEntry) client.TokenEntry { t.Params = []byte("params"); return t }
	busy := func(t client.TokenEntry) client.TokenEntry {
		t.Params, t.ServerPacket, t.BlindingFactors, t.NewOwnerPubKey = []byte("params"), []byte("packet"), []byte("factors"), alice
		return t
	}
	soon, late := now+edge/2, now+3*edge
	return []universe{
		{"given away", [][]client.TokenEntry{
			{tok(0, alice, false, "u", late)}, {tok(1, alice, false, "u", soon)}, {tok(2, bob, false, "u", late+1)}, {tok(3, alice, false, "v", late+2)}}, [2]int{4, 5}},
		{"own", [][]client.TokenEntry{
			{renew(tok(0, me, true, "u", soon)), busy(renew(tok(0, me, true, "u", soon)))},
			{tok(1, me, true, "u", late), params(tok(1, me, true, "u", late))},
			{renew(tok(2, me, true, "v", late+1))}}, [2]int{4, 5}},
		{"mixed", [][]client.TokenEntry{
			{params(renew(tok(0, me, true, "u", soon))), busy(renew(tok(0, me, true, "u", soon))), renew(tok(0, me, true, "u", soon))},
			{tok(1, nil, false, "u", late)}, {tok(2, alice, false, "u", now-edge-5)}}, [2]int{4, 5}},
	}
}

// ---- the system

var count int

func scratch(name string) string {
	d := os.Getenv("VK_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	count++
	return filepath.Join(d, fmt.Sprintf("%s%d-%d", name, os.Getpid(), count))
}

type sys struct {
	db *sql.DB
	st [2]*walletstore.Storage // the second is another process's
}

func (s *sys) Close() { s.db.Close() }

type held struct {
	id, since int64
}

type model struct {
	u     *universe
	now   int64
	have  []int // variant stored, -1: none
	locks []held
	auth  string
	tries int
	keys  int
	other bool
}

func (m *model) Key() string {
	var l []int64
	for _, h := range m.locks {
		if h.id == 0 {
			l = append(l, -1)
		} else {
			l = append(l, m.now-h.since)
		}
	}
	return fmt.Sprint(m.now, m.have, l, m.auth, m.tries, m.keys, m.other)
}

func (m *model) get(i int) *client.TokenEntry { return &m.u.tokens[i][m.have[i]] }

func inReissue(t *client.TokenEntry) bool { return t.ServerPacket != nil }

// free are the tokens that may be handed out and satisfy f.
func (m *model) free(f func(t *client.TokenEntry) bool) []int {
	var l []int
	for i, v := range m.have {
		if v >= 0 && m.locks[i].id == 0 && f(m.get(i)) {
			l = append(l, i)
		}
	}
	return l
}

func spendable(usage string, owner *[32]byte) func(t *client.TokenEntry) bool {
	return func(t *client.TokenEntry) bool {
		return !inReissue(t) && t.OwnerPrivKey == nil && t.Usage == usage && (owner == nil || t.OwnerPubKey != nil && *t.OwnerPubKey == *owner)
	}
}

func own(usage string) func(t *client.TokenEntry) bool {
	return func(t *client.TokenEntry) bool { return !inReissue(t) && t.OwnerPrivKey != nil && t.Usage == usage }
}

func (m *model) expiring(t *client.TokenEntry) bool {
	return !inReissue(t) && t.OwnerPrivKey != nil && t.Renewable && t.Params == nil && t.Expire < m.now+edge
}

func (m *model) index(hash []byte) int {
	for i := range m.u.tokens {
		if bytes.Equal(m.u.tokens[i][0].Hash, hash) {
			return i
		}
	}
	return -1
}

func in(l []int, i int) bool {
	for _, x := range l {
		if x == i {
			return true
		}
	}
	return false
}

// oneOf checks that a hash is that of one of the tokens, nil exactly if there
// is none.
func oneOf(what string, m *model, hash []byte, l []int) error {
	if hash == nil {
		if len(l) > 0 {
			return vk.Badf(what+" finds nothing", "has %v", l)
		}
		return nil
	}
	if !in(l, m.index(hash)) {
		return vk.Badf(what+" finds a wrong token", "%q, should be one of %v", hash, l)
	}
	return nil
}

var usages = []string{"u", "v", "w"}

// look compares everything a store tells with the model.
func look(st *walletstore.Storage, m *model) error {
	for i := range m.u.tokens {
		hash := m.u.tokens[i][0].Hash
		h := m.locks[i]
		ids := []int64{-1, 0, 1}
		if h.id != 0 {
			ids = append(ids, h.id, h.id+1)
		}
		for _, id := range ids {
			t, err := st.GetToken(hash, id)
			want := m.have[i] >= 0 && !(id >= 0 && h.id != 0 && id != h.id)
			switch {
			case want && err != nil:
				return vk.Badf("stored token not found", "%q: %v", hash, err)
			case !want && err == nil:
				return vk.Badf("token found which is not there or locked", "%q with lock %d", hash, id)
			case !want && m.have[i] >= 0 && err != client.ErrLocked:
				return vk.Badf("locked token not reported as locked", "%q: %v", hash, err)
			case want:
				if d := differs(t, m.get(i)); d != "" {
					return vk.Badf("token changed in the store: "+d, "%q", hash)
				}
			}
		}
	}
	for _, u := range usages {
		if n, w := st.GetBalanceOwn(u), len(m.free(own(u))); n != int64(w) {
			return vk.Badf("wrong balance of own tokens", "%d of usage %s, not %d", w, u, n)
		}
		for _, o := range []*[32]byte{nil, alice, bob, me} {
			if n, w := st.GetBalance(u, o), len(m.free(spendable(u, o))); n != int64(w) {
				return vk.Badf("wrong balance", "%d of usage %s, not %d", w, u, n)
			}
		}
		t, err := st.FindToken(u)
		var hash []byte
		switch {
		case err == nil && t == nil:
			return vk.Badf("search reports neither token nor error", "%s", u)
		case err == nil:
			hash = t.Hash
		case err != client.ErrNoToken:
			return vk.Badf("search fails", "%v", err)
		}
		if err := oneOf("search for an own token", m, hash, m.free(own(u))); err != nil {
			return err
		}
		if err == nil && differs(t, m.get(m.index(hash))) != "" {
			return vk.Badf("token changed in the store", "%q", hash)
		}
	}
	if err := oneOf("search for an expiring token", m, st.GetExpire(), m.free(m.expiring)); err != nil {
		return err
	}
	if err := oneOf("search for an interrupted reissue", m, st.GetInReissue(), m.free(inReissue)); err != nil {
		return err
	}
	return nil
}

func cache(st *walletstore.Storage, m *model) error {
	a, n := st.GetAuthToken()
	if string(a) != m.auth || n != m.tries {
		return vk.Badf("stored credential changed", "%q %d, not %q %d", m.auth, m.tries, a, n)
	}
	if (a == nil) != (m.auth == "") {
		return vk.Badf("no credential is not reported as none", "%v", a)
	}
	ks := st.GetVerifyKeys()
	if len(ks) != m.keys {
		return vk.Badf("stored verification keys changed", "%d, not %d", m.keys, len(ks))
	}
	for i := range ks {
		if ks[i] != *pub(byte(i)) {
			return vk.Badf("stored verification keys changed", "%x", ks[i])
		}
	}
	return nil
}

func check(s vk.Sys, mm vk.Model) error {
	x, m := s.(*sys), mm.(*model)
	for i, st := range x.st {
		if st == nil {
			continue
		}
		if err := look(st, m); err != nil {
			return err
		}
		if i == 0 {
			if err := cache(st, m); err != nil {
				return err
			}
		}
	}
	if n := x.db.Stats().InUse; n != 0 {
		return vk.Badf("database connection never given back", "%d in use", n)
	}
	return nil
}

func (m *model) opened() {
	for i, h := range m.locks {
		if h.id != 0 && h.since < m.now-lockAge {
			m.locks[i] = held{}
		}
	}
}

func ops(u *universe) []vk.Op {
	var l []vk.Op
	add := func(name string, enabled func(m *model) bool, f func(s *sys, m *model) error) {
		op := vk.Op{Name: name, Do: func(s vk.Sys, m vk.Model) error { return f(s.(*sys), m.(*model)) }}
		if enabled != nil {
			op.Enabled = func(m vk.Model) bool { return enabled(m.(*model)) }
		}
		l = append(l, op)
	}
	// via performs an operation through either handle.
	via := func(name string, enabled func(m *model) bool, f func(st *walletstore.Storage, m *model) error) {
		add(name, enabled, func(s *sys, m *model) error { return f(s.st[0], m) })
		add("other: "+name, func(m *model) bool { return m.other && (enabled == nil || enabled(m)) }, func(s *sys, m *model) error { return f(s.st[1], m) })
	}
	for i := range u.tokens {
		i := i
		hash := u.tokens[i][0].Hash
		for v := range u.tokens[i] {
			v := v
			add(fmt.Sprintf("set %d.%d", i, v), func(m *model) bool { return m.have[i] != v }, func(s *sys, m *model) error {
				if err := s.st[0].SetToken(u.tokens[i][v]); err != nil {
					return vk.Badf("token cannot be stored", "%v", err)
				}
				m.have[i] = v
				return nil
			})
		}
		via(fmt.Sprintf("lock %d", i), nil, func(st *walletstore.Storage, m *model) error {
			id := st.LockToken(hash)
			want := m.have[i] >= 0 && m.locks[i].id == 0
			if id == 0 || (id > 0) != want {
				return vk.Badf("lock granted wrongly", "%d: token %v locked %v", id, m.have[i] >= 0, m.locks[i].id != 0)
			}
			if want {
				m.locks[i] = held{id, m.now}
			}
			return nil
		})
		add(fmt.Sprintf("unlock %d", i), nil, func(s *sys, m *model) error {
			s.st[0].UnlockToken(hash)
			m.locks[i] = held{}
			return nil
		})
		add(fmt.Sprintf("delete %d", i), func(m *model) bool { return m.have[i] >= 0 }, func(s *sys, m *model) error {
			s.st[0].DelToken(hash)
			m.have[i], m.locks[i] = -1, held{}
			return nil
		})
	}
	for _, q := range []struct {
		usage string
		owner *[32]byte
		name  string
	}{{"u", nil, "anybody"}, {"u", alice, "alice"}, {"u", bob, "bob"}, {"v", alice, "alice"}, {"u", me, "me"}} {
		q := q
		via(fmt.Sprintf("get %s of %s", q.usage, q.name), nil, func(st *walletstore.Storage, m *model) error {
			t, err := st.GetAndLockToken(q.usage, q.owner)
			l := m.free(spendable(q.usage, q.owner))
			if err != nil || t == nil {
				if len(l) > 0 || err != client.ErrNoToken {
					return vk.Badf("token not handed out", "%v %v, has %v", t, err, l)
				}
				return nil
			}
			i := m.index(t.Hash)
			if !in(l, i) {
				return vk.Badf("wrong token handed out", "%q, should be one of %v", t.Hash, l)
			}
			if d := differs(t, m.get(i)); d != "" {
				return vk.Badf("token changed in the store: "+d, "%q", t.Hash)
			}
			// the lock taken is not told: anybody else must be refused
			if id := st.LockToken(t.Hash); id > 0 {
				return vk.Badf("token handed out is not locked", "%q", t.Hash)
			}
			if _, err := st.GetToken(t.Hash, 0); err != client.ErrLocked {
				return vk.Badf("token handed out is not locked", "%q: %v", t.Hash, err)
			}
			m.locks[i] = held{-1, m.now}
			return nil
		})
	}
	add("wait", func(m *model) bool { return m.now == now }, func(s *sys, m *model) error {
		clock.Advance(lockAge * 3 / 5)
		m.now += lockAge * 3 / 5
		return nil
	})
	add("wait long", func(m *model) bool { return m.now < now+lockAge*2 }, func(s *sys, m *model) error {
		clock.Advance(lockAge * 3 / 2)
		m.now += lockAge * 3 / 2
		return nil
	})
	add("restart", nil, func(s *sys, m *model) (err error) {
		s.st[0], err = walletstore.New(s.db)
		m.opened()
		return
	})
	add("open other", func(m *model) bool { return !m.other }, func(s *sys, m *model) (err error) {
		s.st[1], err = walletstore.New(s.db)
		m.other = true
		m.opened()
		return
	})
	add("clean locks", nil, func(s *sys, m *model) error {
		s.st[0].CleanLocks(false)
		m.opened()
		return nil
	})
	add("remove locks", nil, func(s *sys, m *model) error {
		s.st[0].CleanLocks(true)
		for i := range m.locks {
			m.locks[i] = held{}
		}
		return nil
	})
	add("expire", nil, func(s *sys, m *model) error {
		if s.st[0].ExpireUnusable() {
			return vk.Badf("more to expire reported", "")
		}
		for i, v := range m.have {
			if v >= 0 && m.get(i).Expire < m.now-edge {
				m.have[i], m.locks[i] = -1, held{}
			}
		}
		return nil
	})
	return l
}

// cacheOps are histories of the wallet's other data.
func cacheOps() []vk.Op {
	var l []vk.Op
	for _, a := range []struct {
		t string
		n int
	}{{"", 0}, {"credential", 1}, {"other credential", 4}} {
		a := a
		l = append(l, vk.Op{Name: fmt.Sprintf("set credential %q", a.t), Do: func(s vk.Sys, mm vk.Model) error {
			var b []byte
			if a.t != "" {
				b = []byte(a.t)
			}
			if err := s.(*sys).st[0].SetAuthToken(b, a.n); err != nil {
				return vk.Badf("credential cannot be stored", "%v", err)
			}
			m := mm.(*model)
			m.auth, m.tries = a.t, a.n
			return nil
		}})
	}
	for n := 0; n < 3; n++ {
		n := n
		l = append(l, vk.Op{Name: fmt.Sprintf("set %d keys", n), Do: func(s vk.Sys, mm vk.Model) error {
			var ks [][32]byte
			for i := 0; i < n; i++ {
				ks = append(ks, *pub(byte(i)))
			}
			s.(*sys).st[0].SetVerifyKeys(ks)
			mm.(*model).keys = n
			return nil
		}})
	}
	l = append(l, vk.Op{Name: "restart", Do: func(s vk.Sys, m vk.Model) (err error) {
		s.(*sys).st[0], err = walletstore.New(s.(*sys).db)
		return
	}}, vk.Op{Name: "read", Do: func(s vk.Sys, m vk.Model) error { return cache(s.(*sys).st[0], m.(*model)) }})
	return l
}

func newSys() *sys {
	db, err := sql.Open("sqlite3", ":memory:")
	must(err)
	db.SetMaxOpenConns(1)
	st, err := walletstore.New(db)
	must(err)
	return &sys{db: db, st: [2]*walletstore.Storage{st}}
}

func newModel(u *universe) *model {
	m := &model{u: u, now: now, have: make([]int, len(u.tokens)), locks: make([]held, len(u.tokens))}
	for i := range m.have {
		m.have[i] = -1
	}
	return m
}

func histories() {
	for _, u := range universes() {
		u := u
		for _, full := range []bool{false, true} {
			full := full
			name := u.name
			if full {
				name += ", all stored"
			}
			l := &vk.Lockstep{Name: name, Ops: ops(&u), Depth: r.Pick(u.depth[0], u.depth[1]), Merge: true, Check: check,
				New: func() (vk.Sys, vk.Model, error) {
					clock.Freeze(now)
					s, m := newSys(), newModel(&u)
					if full {
						for i := range u.tokens {
							must(s.st[0].SetToken(u.tokens[i][0]))
							m.have[i] = 0
						}
					}
					return s, m, nil
				}}
			if !l.Explore(r) {
				r.Cap("histories")
			}
		}
	}
	l := &vk.Lockstep{Name: "other data", Ops: cacheOps(), Merge: false, Check: check,
		New: func() (vk.Sys, vk.Model, error) {
			clock.Freeze(now)
			return newSys(), newModel(&universe{}), nil
		}}
	l.Depth = r.Pick(3, 5)
	if !l.Explore(r) {
		r.Cap("other data")
	}
}

// ---- forms of tokens

func forms() {
	clock.Freeze(now)
	s := newSys()
	defer s.Close()
	opt := func(on bool, v string) []byte {
		if on {
			return []byte(v)
		}
		return nil
	}
	n := 0
	for bits := 0; bits < 1<<9; bits++ {
		b := func(i uint) bool { return bits>>i&1 == 1 }
		if b(0) && b(8) {
			continue // own tokens have an owner
		}
		if !b(2) && (b(3) || b(4) || b(5)) {
			continue // these come with a packet
		}
		for _, usage := range []string{"u", "", "it's", "Ünïcode \"x\"; --", strings.Repeat("x", 200)} {
			if usage != "u" && bits&0x7c != 0 {
				continue
			}
			n++
			if !vk.Mine(n) {
				continue
			}
			e := client.TokenEntry{Hash: []byte(fmt.Sprintf("h%d", n)), Token: []byte("t"), Usage: usage, Expire: now + int64(bits), OwnerPubKey: alice,
				Params: opt(b(1), "params"), ServerPacket: opt(b(2), "packet"), BlindingFactors: opt(b(3), "factors"), Renewable: b(6), CanReissue: b(7)}
			if b(0) {
				e.OwnerPrivKey, e.OwnerPubKey = meSec, me
			}
			if b(4) {
				e.NewOwnerPubKey = bob
			}
			if b(5) {
				e.NewOwnerPubKey, e.NewOwnerPrivKey = bob, priv(7)
			}
			if b(8) {
				e.OwnerPubKey = nil
			}
			do(fmt.Sprintf("form %d usage %q", bits, usage), func() error {
				for again := 0; again < 2; again++ {
					if err := s.st[0].SetToken(e); err != nil {
						return vk.Badf("token cannot be stored", "%v", err)
					}
					t, err := s.st[0].GetToken(e.Hash, -1)
					if err != nil {
						return vk.Badf("stored token not found", "%v", err)
					}
					if d := differs(t, &e); d != "" {
						return vk.Badf("token changed in the store: "+d, "%d", bits)
					}
				}
				s.st[0].DelToken(e.Hash)
				if _, err := s.st[0].GetToken(e.Hash, -1); err == nil {
					return vk.Badf("deleted token found", "%d", bits)
				}
				return nil
			})
		}
	}
	// Every update of a token from one form to another.
	u := universes()
	for _, uu := range u {
		for i := range uu.tokens {
			for v := range uu.tokens[i] {
				for w := range uu.tokens[i] {
					a, b := uu.tokens[i][v], uu.tokens[i][w]
					do(fmt.Sprintf("%s %d from %d to %d", uu.name, i, v, w), func() error {
						must(s.st[0].SetToken(a))
						must(s.st[0].SetToken(b))
						t, err := s.st[0].GetToken(b.Hash, -1)
						if err != nil {
							return vk.Badf("stored token not found", "%v", err)
						}
						if d := differs(t, &b); d != "" {
							return vk.Badf("token changed in the store: "+d, "")
						}
						s.st[0].DelToken(b.Hash)
						return nil
					})
				}
			}
		}
	}
	// Expiring many.
	for dead := 0; dead <= 32; dead++ {
		for _, live := range []int{0, 3, 12} {
			dead, live := dead, live
			do(fmt.Sprintf("%d expired, %d not", dead, live), func() error {
				s := newSys()
				defer s.Close()
				for i := 0; i < dead+live; i++ {
					e := tok(i, alice, false, "u", now-edge-1)
					if i%2 == 0 {
						e.Expire -= 1000
					}
					if i >= dead {
						e.Expire = now - edge + 1 + int64(i)
					}
					must(s.st[0].SetToken(e))
				}
				rounds := 0
				for s.st[0].ExpireUnusable() {
					if rounds++; rounds > 10 {
						return vk.Badf("expiring never ends", "%d", dead)
					}
				}
				if n := s.st[0].GetBalance("u", nil); n != int64(live) {
					return vk.Badf("wrong tokens expired", "%d left of %d", n, live)
				}
				return nil
			})
		}
	}
}

// ---- crashes

// crashes makes each statement of each operation the last one that is
// executed, and looks at what a restarted wallet finds.
func crashes() {
	clock.Freeze(now)
	type op struct {
		name string
		f    func(st *walletstore.Storage) bool // tells whether it reports success
		hit  int                                // token concerned
		to   int                                // its variant afterwards
	}
	n := 0
	for _, u := range universes() {
		u := u
		var l []op
		for i := range u.tokens {
			i := i
			hash := u.tokens[i][0].Hash
			for v := range u.tokens[i] {
				v := v
				l = append(l, op{fmt.Sprintf("set %d.%d", i, v), func(st *walletstore.Storage) bool { return st.SetToken(u.tokens[i][v]) == nil }, i, v})
			}
			l = append(l, op{fmt.Sprintf("delete %d", i), func(st *walletstore.Storage) bool { st.DelToken(hash); return false }, i, -1})
			l = append(l, op{fmt.Sprintf("lock %d", i), func(st *walletstore.Storage) bool { st.LockToken(hash); return false }, i, -2})
		}
		for _, o := range l {
			for from := -1; from < len(u.tokens[o.hit]); from++ {
				if n++; !vk.Mine(n) {
					continue
				}
				for k := 0; k < 8; k++ {
					o, from, k := o, from, k
					done := false
					do(fmt.Sprintf("%s: %s on %d, crash after %d statements", u.name, o.name, from, k), func() error {
						file := scratch("crash")
						defer os.Remove(file)
						db, err := sql.Open("crashing", file)
						must(err)
						defer db.Close()
						db.SetMaxOpenConns(1)
						st, err := walletstore.New(db)
						must(err)
						m := newModel(&u)
						for i := range u.tokens {
							if i != o.hit {
								must(st.SetToken(u.tokens[i][0]))
								m.have[i] = 0
							}
						}
						if from >= 0 {
							must(st.SetToken(u.tokens[o.hit][from]))
							m.have[o.hit] = from
						}
						limit(file, k)
						claims := o.f(st)
						done = !exhausted(file)
						db.Close()
						db, err = sql.Open("sqlite3", file)
						must(err)
						defer db.Close()
						st, err = walletstore.New(db)
						if err != nil {
							return vk.Badf("wallet cannot be opened after a crash", "%v", err)
						}
						st.CleanLocks(true)
						before := look(st, m)
						if o.to >= -1 {
							m.have[o.hit] = o.to
						}
						after := look(st, m)
						r.Trace()
						r.Trans()
						if before != nil && after != nil {
							return vk.Badf("token lost or changed by a crash", "neither as before (%v) nor as intended (%v)", before, after)
						}
						if claims && after != nil {
							return vk.Badf("token reported as stored is lost", "%v", after)
						}
						if done && after != nil {
							return vk.Badf("operation without effect", "%v", after)
						}
						// and it can be stored again
						v := o.to
						if v < 0 {
							v = 0
						}
						if err := st.SetToken(u.tokens[o.hit][v]); err != nil {
							return vk.Badf("token cannot be stored after a crash", "%v", err)
						}
						m.have[o.hit] = v
						return look(st, m)
					})
					if done {
						break
					}
				}
			}
		}
	}
}

// ---- concurrency

func races() {
	bin := filepath.Join(os.Getenv("VK_BIN"), "c18race")
	out, err := exec.Command(bin).Output()
	must(err)
	names := strings.Fields(string(out))
	sort.Strings(names)
	n := 0
	for i := range names {
		for j := i; j < len(names); j++ {
			set := []string{names[i], names[j]}
			if n++; !vk.Mine(n) || r.Expired() {
				continue
			}
			do(fmt.Sprintf("concurrently: %v", set), func() error {
				c := exec.Command(bin, set...)
				c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
				var e bytes.Buffer
				c.Stderr = &e
				err := c.Run()
				r.Trans()
				if err == nil {
					return nil
				}
				x, ok := err.(*exec.ExitError)
				if !ok {
					return err
				}
				t := e.String()
				switch {
				case x.ExitCode() == 66:
					return vk.Badf("concurrent use corrupts the store", "%s", t)
				case x.ExitCode() == 1:
					return vk.Badf("wrong result of concurrent use", "%s", t)
				case strings.Contains(t, "panic") || strings.Contains(t, "fatal error"):
					return vk.Badf("concurrent use crashes", "%s", t)
				}
				return fmt.Errorf("%v: %s", err, t)
			})
		}
	}
}

func main() {
	r = vk.Start("C18")
	r.Fork()
	r.Assume("SQLite executes each single statement atomically and durably.")
	forms()
	crashes()
	races()
	histories()
	r.Done()
}
