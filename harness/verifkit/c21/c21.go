// C21: the pool of issuer keys, its storages and the key lookup client. All
// short histories of loading, saving, looking up, expiring and restarting run
// in lockstep with a reference; storage contents and server answers are
// altered in every way; all pairs of concurrent operations run under the race
// detector.
package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"database/sql"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	_ "github.com/mutecomm/go-sqlcipher/v4"
	"github.com/mutecomm/mute/serviceguard/client/keylookup"
	"github.com/mutecomm/mute/serviceguard/common/keypool"
	"github.com/mutecomm/mute/serviceguard/common/keypool/keydb"
	"github.com/mutecomm/mute/serviceguard/common/keypool/keydir"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	"github.com/mutecomm/mute/verifkit/guardkit"
	"github.com/mutecomm/mute/verifkit/jsonmut"
	"github.com/ronperry/cryptoedge/eccutil"
	_ "github.com/mutecomm/mute/verifkit/quickdb"
)

var r *vk.R

const (
	now   = 1500000000
	step  = 600
	short = 1000
	long  = 1000000
)

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var count int

func scratch(name string) string {
	d := os.Getenv("VK_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	count++
	return filepath.Join(d, fmt.Sprintf("%s%d-%d", name, os.Getpid(), count))
}

func content(k *signkeys.PublicKey) string {
	if k == nil {
		return "none"
	}
	return fmt.Sprintf("%x|%s|%s|%d|%q|%x|%x", k.KeyID, k.PublicKey.X, k.PublicKey.Y, k.Expire, k.Usage, k.Signer, k.Signature)
}

// ---- the keys

type key struct {
	name    string
	k       signkeys.PublicKey
	enc     []byte
	genuine bool
	signer  int
	usage   string
	expire  int64
}

var (
	signers = []guardkit.Pair{guardkit.NewPair(1), guardkit.NewPair(2), guardkit.NewPair(3)}
	keys    []*key
)

func addKey(name string, signer int, genuine bool, k signkeys.PublicKey) *key {
	enc, err := k.Marshal()
	must(err)
	x := &key{name, k, enc, genuine, signer, k.Usage, k.Expire}
	keys = append(keys, x)
	return x
}

func makeKeys() {
	clock.Freeze(now)
	issue := func(signer byte, usage string, life int64) signkeys.PublicKey {
		return guardkit.NewIssuer(signer, usage).Key(life).PublicKey
	}
	addKey("short", 0, true, issue(1, "u", short))
	addKey("long", 0, true, issue(1, "u", long))
	addKey("other", 1, true, issue(2, "u", long))
	addKey("usage", 0, true, issue(1, "v", long))
	k := keys[0].k
	k.Expire += long
	addKey("extended", 0, false, k)
	k.KeyID = k.CalcKeyID()
	addKey("renumbered", 0, false, k)
	k = issue(3, "u", long)
	k.Signer = *signers[0].Pub
	k.KeyID = k.CalcKeyID()
	copy(k.Signature[:], ed25519.Sign(signers[2].Priv[:], k.KeyID[:]))
	addKey("impostor", 0, false, k)
	k = keys[1].k
	k.KeyID = keys[2].k.KeyID
	addKey("misnumbered", 0, false, k)
}

// genuineKeys are how many of the keys, from the first, have an own key id.
const genuineKeys = 4

// ---- storage

// store is storage that outlives pools.
type store struct {
	kinds []string
	dir   string
	db    *sql.DB
}

func newStore(kinds []string) *store {
	s := &store{kinds: kinds}
	for _, k := range kinds {
		switch k {
		case "dir":
			s.dir = scratch("dir")
		case "db":
			db, err := sql.Open("sqlite3", ":memory:")
			must(err)
			db.SetMaxOpenConns(1)
			s.db = db
		}
	}
	return s
}

func (s *store) register(kp *keypool.KeyPool) error {
	for _, k := range s.kinds {
		switch k {
		case "dir":
			if err := keydir.Add(kp, s.dir); err != nil {
				return err
			}
		case "db":
			kd, err := keydb.New(s.db)
			if err != nil {
				return err
			}
			if err := kd.Add(kp); err != nil {
				return err
			}
		}
	}
	return nil
}

func (s *store) Close() {
	if s.db != nil {
		s.db.Close()
	}
	if s.dir != "" {
		os.RemoveAll(s.dir)
	}
}

func (s *store) has(k string) bool {
	for _, x := range s.kinds {
		if x == k {
			return true
		}
	}
	return false
}

func newPool(usage string) *keypool.KeyPool {
	g := signkeys.New(elliptic.P256, rand.Reader, eccutil.Sha1Hash)
	g.Usage = usage
	return keypool.New(g)
}

// ---- histories

type sys struct {
	*store
	usage string
	kp    *keypool.KeyPool
	fetch []byte // what the callback answers, nil for an error
	asked int
}

func (s *sys) restart() error {
	s.kp = newPool(s.usage)
	if err := s.store.register(s.kp); err != nil {
		return err
	}
	if len(s.kinds) == 0 {
		s.kp.RegisterStorage(func(id []byte) ([]byte, error) {
			s.asked++
			if s.fetch == nil {
				return nil, errors.New("no answer")
			}
			return s.fetch, nil
		}, nil, nil)
	}
	return nil
}

type model struct {
	usage    string
	now      int64
	accepted [2]bool
	loaded   [genuineKeys]bool
	dir, db  [genuineKeys]bool
	hasDir   bool
	hasDB    bool
}

func (m *model) Key() string { return fmt.Sprint(*m) }

func (m *model) loadable(i int) bool {
	k := keys[i]
	return k.genuine && m.accepted[k.signer] && (m.usage == "" || k.usage == m.usage) && k.expire > m.now
}

// look is what a lookup of a key does: whether it is served.
func (m *model) look(i int) bool {
	if m.loaded[i] {
		return keys[i].expire > m.now
	}
	if m.hasDB && m.db[i] && m.loadable(i) {
		m.loaded[i] = true
		return true
	}
	return false
}

func judge(kp *keypool.KeyPool, i int, want bool) error {
	k, err := kp.Lookup(keys[i].k.KeyID)
	switch {
	case err == nil && k == nil:
		return vk.Badf("lookup reports neither key nor error", "%s", keys[i].name)
	case err == nil && !want:
		return vk.Badf("key served that must not be", "%s: %s", keys[i].name, content(k))
	case err != nil && want:
		return vk.Badf("valid key not found", "%s: %v", keys[i].name, err)
	case err == nil && content(k) != content(&keys[i].k):
		return vk.Badf("other key served", "%s: %s is %s", keys[i].name, content(&keys[i].k), content(k))
	case err != nil && k != nil:
		return vk.Badf("lookup reports a key and an error", "%s: %v", keys[i].name, err)
	}
	return nil
}

func check(s vk.Sys, mm vk.Model) error {
	x, c := s.(*sys), *mm.(*model)
	x.fetch = nil
	for i := 0; i < genuineKeys; i++ {
		if err := judge(x.kp, i, c.look(i)); err != nil {
			return err
		}
	}
	var want, have []string
	for i, a := range c.accepted {
		if a {
			want = append(want, hex.EncodeToString(signers[i].Pub[:]))
		}
		if x.kp.HasVerifyKey(signers[i].Pub, false) != a {
			return vk.Badf("wrong verification keys", "%d: %v", i, !a)
		}
	}
	for _, k := range x.kp.ListVerifyKeys() {
		have = append(have, hex.EncodeToString(k[:]))
	}
	sort.Strings(want)
	sort.Strings(have)
	if fmt.Sprint(have) != fmt.Sprint(want) {
		return vk.Badf("wrong verification keys", "%v, want %v", have, want)
	}
	if x.db != nil && x.db.Stats().InUse != 0 {
		return vk.Badf("database connection never given back", "%d in use", x.db.Stats().InUse)
	}
	return nil
}

func ops(kinds []string) []vk.Op {
	var l []vk.Op
	add := func(name string, enabled func(m *model) bool, f func(s *sys, m *model) error) {
		op := vk.Op{Name: name, Do: func(s vk.Sys, m vk.Model) error { return f(s.(*sys), m.(*model)) }}
		if enabled != nil {
			op.Enabled = func(m vk.Model) bool { return enabled(m.(*model)) }
		}
		l = append(l, op)
	}
	for i := range signers[:2] {
		i := i
		add(fmt.Sprintf("accept signer %d", i), func(m *model) bool { return !m.accepted[i] }, func(s *sys, m *model) error {
			s.kp.AddVerifyKey(signers[i].Pub)
			m.accepted[i] = true
			return nil
		})
	}
	for i := range keys {
		i := i
		add("load "+keys[i].name, nil, func(s *sys, m *model) error {
			k, err := new(signkeys.PublicKey).Unmarshal(keys[i].enc)
			must(err)
			id, err := s.kp.LoadKey(k)
			ok := err == nil || err == keypool.ErrExists
			if ok != m.loadable(i) {
				return vk.Badf("wrong keys loaded", "%s: %v", keys[i].name, err)
			}
			if ok {
				if id == nil || *id != keys[i].k.KeyID {
					return vk.Badf("wrong key id", "%x for %s", id, keys[i].name)
				}
				if (err == keypool.ErrExists) != m.loaded[i] {
					return vk.Badf("wrong report on a key loaded before", "%s: %v", keys[i].name, err)
				}
				m.loaded[i] = true
			}
			return nil
		})
	}
	for i := 0; i < genuineKeys; i++ {
		i := i
		if len(kinds) == 0 {
			// what the callback delivers when asked for the key
			for j := -2; j < len(keys); j++ {
				j := j
				name := "an error"
				switch {
				case j >= 0:
					name = keys[j].name
				case j == -1:
					name = "garbage"
				}
				add(fmt.Sprintf("fetch %s, answered %s", keys[i].name, name), func(m *model) bool { return !m.loaded[i] }, func(s *sys, m *model) error {
					s.asked = 0
					switch {
					case j >= 0:
						s.fetch = keys[j].enc
					case j == -1:
						s.fetch = []byte("garbage")
					default:
						s.fetch = nil
					}
					if j >= 0 && m.loadable(j) && !m.loaded[j] && j < genuineKeys {
						// an authentic key may be kept, whoever asked
						defer func() {
							if k, err := s.kp.Lookup(keys[j].k.KeyID); err == nil && content(k) == content(&keys[j].k) {
								m.loaded[j] = true
							}
						}()
					}
					want := i == j && m.loadable(i)
					err := judge(s.kp, i, want)
					s.fetch = nil
					if s.asked != 1 {
						return vk.Badf("callback not asked once", "%d times", s.asked)
					}
					return err
				})
			}
		} else {
			add("look up "+keys[i].name, nil, func(s *sys, m *model) error { return judge(s.kp, i, m.look(i)) })
			add("save "+keys[i].name, nil, func(s *sys, m *model) error {
				err := s.kp.SaveKey(keys[i].k.KeyID)
				ok := m.loaded[i] && keys[i].expire > m.now
				if (err == nil) != ok {
					return vk.Badf("wrong report on saving", "%s: %v", keys[i].name, err)
				}
				if ok {
					m.dir[i], m.db[i] = m.hasDir, m.hasDB
				}
				return nil
			})
		}
	}
	if len(kinds) > 0 {
		add("restart", nil, func(s *sys, m *model) error {
			m.loaded, m.accepted = [genuineKeys]bool{}, [2]bool{}
			return s.restart()
		})
		add("load all", nil, func(s *sys, m *model) error {
			if err := s.kp.Load(); err != nil {
				return vk.Badf("keys cannot be loaded", "%v", err)
			}
			for i := range m.loaded {
				if m.loadable(i) && (m.dir[i] || m.db[i]) {
					m.loaded[i] = true
				}
			}
			return nil
		})
	}
	add("wait", func(m *model) bool { return m.now < now+3*step }, func(s *sys, m *model) error {
		clock.Advance(step)
		m.now += step
		return nil
	})
	return l
}

func histories() {
	for _, c := range []struct {
		kinds []string
		usage string
		q, t  int
	}{{nil, "", 4, 5}, {nil, "u", 5, 6}, {[]string{"dir"}, "u", 7, 9}, {[]string{"dir"}, "", 7, 9}, {[]string{"db"}, "", 7, 9}, {[]string{"db"}, "u", 6, 9},
		{[]string{"dir", "db"}, "u", 6, 9}, {[]string{"db", "dir"}, "u", 6, 9}} {
		c := c
		l := &vk.Lockstep{
			Name: fmt.Sprintf("storage %v usage %q", c.kinds, c.usage), Ops: ops(c.kinds), Depth: r.Pick(c.q, c.t), Merge: true, Check: check,
			New: func() (vk.Sys, vk.Model, error) {
				clock.Freeze(now)
				s := &sys{store: newStore(c.kinds), usage: c.usage}
				m := &model{usage: c.usage, now: now, hasDir: s.has("dir"), hasDB: s.has("db")}
				return s, m, s.restart()
			},
		}
		if !l.Explore(r) {
			r.Cap("histories")
		}
	}
}

// ---- the generator

const life = 1000

type gsys struct {
	*store
	kp   *keypool.KeyPool
	made []*signkeys.PublicKey
}

type gmodel struct {
	now    int64
	age    []int64 // when each was made
	cur    int     // index of the current key, -1 without
	prev   int
	loaded []bool
}

func (m *gmodel) Key() string {
	var a []int64
	for _, x := range m.age {
		a = append(a, m.now-x)
	}
	return fmt.Sprint(m.now, a, m.cur, m.prev, m.loaded)
}

func (s *gsys) restart() error {
	s.kp = newPool("u")
	g := s.kp.Generator
	g.ExpireTime, g.PublicKey, g.PrivateKey = life, signers[0].Pub, signers[0].Priv
	s.kp.AddVerifyKey(signers[0].Pub)
	return s.store.register(s.kp)
}

func generator(kinds []string) {
	var l []vk.Op
	l = append(l, vk.Op{Name: "current", Do: func(s vk.Sys, mm vk.Model) error {
		x, m := s.(*gsys), mm.(*gmodel)
		cur, prev, err := x.kp.Current()
		if err != nil {
			return vk.Badf("no current key", "%v", err)
		}
		if cur == nil {
			return vk.Badf("no current key", "nil")
		}
		fresh := true
		for i, k := range x.made {
			if *k == cur.PublicKey {
				fresh = false
				if i != m.cur {
					return vk.Badf("an earlier key became current", "%d after %d", i, m.cur)
				}
			}
		}
		if cur.PublicKey.Expire <= m.now {
			return vk.Badf("current key is expired", "by %d seconds", m.now-cur.PublicKey.Expire)
		}
		if m.cur >= 0 {
			left := x.made[m.cur].Expire - m.now
			if left > life/2 && fresh {
				return vk.Badf("current key given up early", "%d seconds left", left)
			}
			if left < life/2 && !fresh {
				return vk.Badf("current key kept for too long", "%d seconds left", left)
			}
		} else if !fresh {
			return vk.Badf("not a new key", "")
		}
		if fresh {
			k := cur.PublicKey
			if k.Signer != *signers[0].Pub || !k.Verify(signers[0].Pub) || k.Usage != "u" || k.Expire != m.now+life {
				return vk.Badf("wrong key made", "%s", content(&k))
			}
			x.made = append(x.made, &k)
			m.age, m.loaded = append(m.age, m.now), append(m.loaded, true)
			m.prev = m.cur
			m.cur = len(m.age) - 1
		}
		if (prev == nil) != (m.prev < 0) || prev != nil && prev.PublicKey.KeyID != x.made[m.prev].KeyID {
			return vk.Badf("wrong previous key", "%v, want number %d", prev, m.prev)
		}
		return nil
	}})
	for _, w := range []int64{life / 4, life * 2 / 5, life + 1} {
		w := w
		l = append(l, vk.Op{Name: fmt.Sprintf("wait %d", w), Do: func(s vk.Sys, m vk.Model) error {
			clock.Advance(w)
			m.(*gmodel).now += w
			return nil
		}})
	}
	l = append(l, vk.Op{Name: "restart", Do: func(s vk.Sys, mm vk.Model) error {
		x, m := s.(*gsys), mm.(*gmodel)
		if err := x.restart(); err != nil {
			return err
		}
		m.cur, m.prev = -1, -1
		if err := x.kp.Load(); err != nil {
			return vk.Badf("keys cannot be loaded", "%v", err)
		}
		for i, k := range x.made {
			m.loaded[i] = len(kinds) > 0 && k.Expire > m.now
		}
		return nil
	}})
	e := &vk.Lockstep{
		Name: fmt.Sprintf("generator %v", kinds), Ops: l, Depth: r.Pick(6, 8), Merge: false,
		Check: func(s vk.Sys, mm vk.Model) error {
			x, m := s.(*gsys), mm.(*gmodel)
			for i, k := range x.made {
				got, err := x.kp.Lookup(k.KeyID)
				want := m.loaded[i] && k.Expire > m.now
				if (err == nil) != want {
					return vk.Badf("wrong generated keys served", "number %d: %v", i, err)
				}
				if err == nil && content(got) != content(k) {
					return vk.Badf("other key served", "%s", content(got))
				}
			}
			return nil
		},
		New: func() (vk.Sys, vk.Model, error) {
			clock.Freeze(now)
			s := &gsys{store: newStore(kinds)}
			return s, &gmodel{now: now, cur: -1, prev: -1}, s.restart()
		},
	}
	if !e.Explore(r) {
		r.Cap("generator")
	}
}

// ---- damaged storage

// damaged loads keys out of storage in which one record is damaged.
func damaged() {
	clock.Freeze(now)
	good := []int{1, 2, 3}
	fill := func(kinds []string) *store {
		s := newStore(kinds)
		kp := newPool("")
		must(s.register(kp))
		for i := range signers[:2] {
			kp.AddVerifyKey(signers[i].Pub)
		}
		for _, i := range good {
			k := keys[i].k
			_, err := kp.LoadKey(&k)
			must(err)
			must(kp.SaveKey(k.KeyID))
		}
		return s
	}
	judgeAll := func(s *store, hit int) error {
		kp := newPool("")
		if err := s.register(kp); err != nil {
			return vk.Badf("damaged storage cannot be used", "%v", err)
		}
		for i := range signers[:2] {
			kp.AddVerifyKey(signers[i].Pub)
		}
		if err := kp.Load(); err != nil {
			return vk.Badf("one damaged record keeps all keys from being loaded", "%v", err)
		}
		for _, i := range good {
			k, err := kp.Lookup(keys[i].k.KeyID)
			if err == nil && content(k) != content(&keys[i].k) {
				return vk.Badf("other key served", "%s: %s", keys[i].name, content(k))
			}
			if i != hit && err != nil {
				return vk.Badf("valid key not found", "%s: %v", keys[i].name, err)
			}
		}
		if s.db != nil && s.db.Stats().InUse != 0 {
			return vk.Badf("database connection never given back", "%d in use", s.db.Stats().InUse)
		}
		// and the key can be stored again
		for _, i := range good {
			k := keys[i].k
			if _, err := kp.LoadKey(&k); err != nil && err != keypool.ErrExists {
				return vk.Badf("valid key cannot be loaded", "%s: %v", keys[i].name, err)
			}
		}
		return nil
	}
	n := 0
	for _, hit := range good {
		hit := hit
		muts := []jsonmut.Mut{{What: "text", Doc: []byte("hello")}, {What: "zero bytes", Doc: make([]byte, len(keys[hit].enc))},
			{What: "key of another", Doc: keys[1+hit%3].enc}, {What: "key twice", Doc: append(append([]byte{}, keys[hit].enc...), keys[hit].enc...)}}
		for c := range keys[hit].enc {
			muts = append(muts, jsonmut.Mut{What: fmt.Sprintf("cut at %d", c), Doc: keys[hit].enc[:c]})
			for b := uint(0); b < 8; b++ {
				if b != 0 && b != 5 && !r.Thorough() {
					continue
				}
				d := append([]byte{}, keys[hit].enc...)
				d[c] ^= 1 << b
				muts = append(muts, jsonmut.Mut{What: fmt.Sprintf("bit %d of byte %d", b, c), Doc: d})
			}
		}
		for _, m := range muts {
			m := m
			if n++; !vk.Mine(n) || r.Expired() {
				continue
			}
			do(fmt.Sprintf("file of %s: %s", keys[hit].name, m.What), func() error {
				s := fill([]string{"dir"})
				defer s.Close()
				must(ioutil.WriteFile(filepath.Join(s.dir, fmt.Sprintf("%x.pubkey", keys[hit].k.KeyID)), m.Doc, 0600))
				return judgeAll(s, hit)
			})
			do(fmt.Sprintf("row of %s: %s", keys[hit].name, m.What), func() error {
				s := fill([]string{"db"})
				defer s.Close()
				res, err := s.db.Exec("UPDATE keypool SET KeyData=? WHERE KeyID=?;", base64.StdEncoding.EncodeToString(m.Doc), hex.EncodeToString(keys[hit].k.KeyID[:]))
				must(err)
				if c, _ := res.RowsAffected(); c != 1 {
					return fmt.Errorf("harness: %d rows", c)
				}
				return judgeAll(s, hit)
			})
		}
		do("row of "+keys[hit].name+": not base64", func() error {
			s := fill([]string{"db"})
			defer s.Close()
			_, err := s.db.Exec("UPDATE keypool SET KeyData='%' WHERE KeyID=?;", hex.EncodeToString(keys[hit].k.KeyID[:]))
			must(err)
			return judgeAll(s, hit)
		})
		do("row of "+keys[hit].name+": null", func() error {
			s := fill([]string{"db"})
			defer s.Close()
			_, err := s.db.Exec("UPDATE keypool SET KeyData=NULL WHERE KeyID=?;", hex.EncodeToString(keys[hit].k.KeyID[:]))
			must(err)
			return judgeAll(s, hit)
		})
	}
	// Storage that fails must not be taken for storage that keeps the key.
	for _, kinds := range [][]string{{"dir"}, {"db"}, {"dir", "db"}, {"db", "dir"}} {
		for _, broken := range kinds {
			kinds, broken := kinds, broken
			do(fmt.Sprintf("storage %v, %s fails", kinds, broken), func() error {
				s := newStore(kinds)
				defer s.Close()
				kp := newPool("")
				must(s.register(kp))
				kp.AddVerifyKey(signers[0].Pub)
				k := keys[1].k
				_, err := kp.LoadKey(&k)
				must(err)
				if broken == "dir" {
					must(os.RemoveAll(s.dir))
				} else {
					_, err := s.db.Exec("DROP TABLE keypool;")
					must(err)
				}
				if err := kp.SaveKey(k.KeyID); err == nil {
					return vk.Badf("saving succeeds though nothing was stored", "%v", kinds)
				}
				kp.Generator.PrivateKey, kp.Generator.PublicKey = signers[0].Priv, signers[0].Pub
				if cur, _, err := kp.Current(); err == nil {
					return vk.Badf("a key is issued though it could not be stored", "%s", content(&cur.PublicKey))
				}
				return nil
			})
		}
	}
}

// ---- key lookup

func result(v interface{}) []byte {
	b, err := json.Marshal(v)
	must(err)
	return b
}

func lookups() {
	clock.Freeze(now)
	root := guardkit.NewPair(9)
	srv := guardkit.Serve(nil)
	defer srv.Close()
	keylookup.ServiceURL = srv.URL
	list := func(k guardkit.Pair, l string) map[string]interface{} {
		return map[string]interface{}{"PublicKey": hex.EncodeToString(k.Pub[:]), "KeyList": l, "Signature": hex.EncodeToString(ed25519.Sign(k.Priv[:], []byte(l)))}
	}
	h := func(i int) string { return hex.EncodeToString(signers[i].Pub[:]) }
	lists := [][]int{{0}, {0, 1}, {0, 1, 2}}
	text := func(l []int) string {
		var s []string
		for _, i := range l {
			s = append(s, h(i))
		}
		return strings.Join(s, ", ")
	}
	fetch := func(rep guardkit.Reply) ([]string, error) {
		srv.Set(func(c guardkit.Call) guardkit.Reply { return rep })
		got, err := keylookup.New(newPool(""), nil, root.Pub).GetVerifyList()
		var l []string
		for _, k := range got {
			l = append(l, hex.EncodeToString(k[:]))
		}
		if err != nil && len(l) > 0 {
			return nil, vk.Badf("keys and an error", "%v", err)
		}
		return l, err
	}
	n := 0
	mine := func() bool { n++; return vk.Mine(n) && !r.Expired() }
	for li, l := range lists {
		l := l
		good := list(root, text(l))
		do(fmt.Sprintf("signers %v", l), func() error {
			got, err := fetch(guardkit.Reply{Result: good})
			if err != nil || strings.Join(got, ", ") != text(l) {
				return vk.Badf("genuine list of signers not accepted", "%v %v", got, err)
			}
			return nil
		})
		accepted := func(rep guardkit.Reply) func() error {
			return func() error {
				got, err := fetch(rep)
				if b, ok := err.(*vk.Bad); ok {
					return b
				}
				if err == nil && strings.Join(got, ", ") != text(l) {
					return vk.Badf("signers that were not signed are accepted", "%v", got)
				}
				return nil
			}
		}
		muts := jsonmut.All(result(good), li == 0 || r.Thorough())
		for _, m := range muts {
			if mine() {
				do(fmt.Sprintf("signers %v: %s %s", l, m.Path, m.What), accepted(guardkit.Reply{Result: json.RawMessage(m.Doc)}))
			}
		}
		full := []byte(`{"jsonrpc":"2.0","result":` + string(result(good)) + `,"id":1}`)
		for _, m := range jsonmut.Raw(full) {
			if (li == 0 || r.Thorough()) && mine() {
				do(fmt.Sprintf("signers %v: %s", l, m.What), accepted(guardkit.Reply{Raw: m.Doc}))
			}
		}
		do(fmt.Sprintf("signers %v by another", l), accepted(guardkit.Reply{Result: list(signers[2], text(l)+", "+h(2))}))
		x := list(signers[2], text(l)+", "+h(2))
		x["PublicKey"] = good["PublicKey"]
		do(fmt.Sprintf("signers %v by an impostor", l), accepted(guardkit.Reply{Result: x}))
		y := list(root, "")
		do(fmt.Sprintf("signers %v dropped", l), accepted(guardkit.Reply{Drop: true}))
		y["KeyList"] = good["KeyList"]
		do(fmt.Sprintf("signers %v with another list's signature", l), accepted(guardkit.Reply{Result: y}))
	}
	// Lists that are signed, but not lists of keys, must not become keys.
	for _, bad := range []string{"", " ", "x", h(0)[:62], h(0) + "00", h(0) + ",", h(0) + ", ", h(0) + "," + h(1), ", " + h(0), h(0) + ", " + h(1)[:10], h(0) + ", , " + h(1)} {
		bad := bad
		do(fmt.Sprintf("signed list %q", bad), func() error {
			got, err := fetch(guardkit.Reply{Result: list(root, bad)})
			if b, ok := err.(*vk.Bad); ok {
				return b
			}
			if err == nil && strings.Join(got, ", ") != bad {
				return vk.Badf("malformed list of signers misread", "%q as %v", bad, got)
			}
			return nil
		})
	}

	// Keys.
	reply := func(i int) guardkit.Reply {
		return guardkit.Reply{Result: map[string]string{"Key": base64.StdEncoding.EncodeToString(keys[i].enc)}}
	}
	// via is a lookup of a key through the client and through a pool that
	// fetches what it lacks.
	via := func(i int, rep guardkit.Reply, want bool) error {
		srv.Set(func(c guardkit.Call) guardkit.Reply { return rep })
		k, err := keylookup.New(nil, nil, root.Pub).GetKey(&keys[i].k.KeyID)
		if err == nil && (k == nil || k.KeyID != keys[i].k.KeyID) {
			return vk.Badf("another key than the one asked for is returned", "%s", content(k))
		}
		if want && err != nil {
			return vk.Badf("genuine key not accepted", "%v", err)
		}
		c := srv.Calls()
		if want && (len(c) != 1 || c[0].Params["KeyID"] != hex.EncodeToString(keys[i].k.KeyID[:])) {
			return vk.Badf("wrong request", "%v", c)
		}
		for _, dir := range []bool{false, true} {
			kinds := []string{}
			if dir {
				kinds = append(kinds, "dir")
			}
			s := newStore(kinds)
			defer s.Close()
			kp := newPool("u")
			must(s.register(kp))
			kp.AddVerifyKey(signers[0].Pub)
			lc := keylookup.New(kp, nil, root.Pub)
			lc.RegisterStorage()
			for again := 0; again < 2; again++ {
				k, err := kp.Lookup(keys[i].k.KeyID)
				if err == nil && (k == nil || content(k) != content(&keys[i].k)) {
					return vk.Badf("unauthentic key served", "%s", content(k))
				}
				if err == nil && !(keys[i].genuine && keys[i].signer == 0 && keys[i].usage == "u") {
					return vk.Badf("key served that must not be", "%s", content(k))
				}
				if want && err != nil {
					return vk.Badf("genuine key not accepted", "%v", err)
				}
				if want {
					srv.Set(func(c guardkit.Call) guardkit.Reply { return guardkit.Reply{Drop: true} })
				}
			}
			srv.Set(func(c guardkit.Call) guardkit.Reply { return rep })
			if dir && want {
				kp := newPool("u")
				must(s.register(kp))
				kp.AddVerifyKey(signers[0].Pub)
				must(kp.Load())
				if k, err := kp.Lookup(keys[i].k.KeyID); err != nil || content(k) != content(&keys[i].k) {
					return vk.Badf("fetched key was not stored", "%v", err)
				}
			}
		}
		return nil
	}
	for i := range keys {
		for j := range keys {
			i, j := i, j
			if i >= genuineKeys && i != j {
				continue
			}
			if mine() {
				do(fmt.Sprintf("key %s, answered %s", keys[i].name, keys[j].name), func() error {
					return via(i, reply(j), i == j && keys[i].genuine && keys[i].signer == 0 && keys[i].usage == "u")
				})
			}
		}
	}
	good := result(reply(1).Result)
	for _, m := range jsonmut.All(good, true) {
		if m := m; mine() {
			do("key: "+m.Path+" "+m.What, func() error { return via(1, guardkit.Reply{Result: json.RawMessage(m.Doc)}, false) })
		}
	}
	for p := range keys[1].enc {
		for _, x := range []byte{1, 0x80, 0xff} {
			d := append([]byte{}, keys[1].enc...)
			d[p] ^= x
			if mine() {
				do(fmt.Sprintf("key: byte %d by %#x", p, x), func() error {
					return via(1, guardkit.Reply{Result: map[string]string{"Key": base64.StdEncoding.EncodeToString(d)}}, false)
				})
			}
		}
		cut := keys[1].enc[:p]
		if mine() {
			do(fmt.Sprintf("key: cut at %d", p), func() error {
				return via(1, guardkit.Reply{Result: map[string]string{"Key": base64.StdEncoding.EncodeToString(cut)}}, false)
			})
		}
	}
	for _, e := range []guardkit.Reply{{Err: "no"}, {Err: " "}, {Drop: true}, {Raw: []byte{}}, {Raw: []byte("null")}, {Raw: []byte("{}")}, {Raw: []byte("[]")}} {
		e := e
		do(fmt.Sprintf("key: %+v", e), func() error { return via(1, e, false) })
	}
}

// ---- concurrency

// races runs every combination of two and of three operations at the same
// time on one pool, in a program built with the race detector.
func races() {
	bin := filepath.Join(os.Getenv("VK_BIN"), "c21race")
	out, err := exec.Command(bin).Output()
	must(err)
	names := strings.Fields(string(out))
	var sets [][]string
	for i := range names {
		for j := i; j < len(names); j++ {
			sets = append(sets, []string{names[i], names[j]})
			for k := j; k < len(names) && r.Thorough(); k++ {
				sets = append(sets, []string{names[i], names[j], names[k]})
			}
		}
	}
	for n, set := range sets {
		set := set
		if !vk.Mine(n) || r.Expired() {
			continue
		}
		do(fmt.Sprintf("concurrently: %v", set), func() error {
			c := exec.Command(bin, set...)
			c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
			var e bytes.Buffer
			c.Stderr = &e
			err := c.Run()
			r.Trans()
			if err == nil {
				return nil
			}
			x, ok := err.(*exec.ExitError)
			if !ok {
				return err
			}
			t := e.String()
			switch {
			case x.ExitCode() == 66:
				return vk.Badf("concurrent use corrupts the pool", "%s", t)
			case x.ExitCode() == 1:
				return vk.Badf("wrong result of concurrent use", "%s", t)
			case strings.Contains(t, "panic") || strings.Contains(t, "fatal error"):
				return vk.Badf("concurrent use crashes", "%s", t)
			}
			return fmt.Errorf("%v: %s", err, t)
		})
	}
}

// usages: pools with a usage and keys with another one, however the key comes.
func usages() {
	names := []string{"", "u", "v", "uu", "U", " u", "u:"}
	paths := []string{"load", "fetch", "dir", "db", "db, all"}
	if !vk.Mine(1) {
		return
	}
	clock.Freeze(now)
	for ki, ku := range names {
		k := guardkit.NewIssuer(byte(1), ku).Key(long).PublicKey
		enc, err := k.Marshal()
		must(err)
		for _, pu := range names {
			for _, path := range paths {
				if path == "dir" && strings.ContainsAny(ku, "/ ") {
					continue
				}
				name := fmt.Sprintf("pool for %q, key for %q by %s", pu, ku, path)
				do(name, func() error {
					var kinds []string
					if strings.HasPrefix(path, "d") {
						kinds = []string{path[:2]}
						if path == "dir" {
							kinds = []string{"dir"}
						}
					}
					st := newStore(kinds)
					defer st.Close()
					if len(kinds) > 0 {
						// kept by a pool for keys of any kind
						first := newPool("")
						must(st.register(first))
						first.AddVerifyKey(signers[0].Pub)
						if _, err := first.LoadKey(&k); err != nil {
							return vk.Badf("valid key not loaded", "%v", err)
						}
						if err := first.SaveKey(k.KeyID); err != nil {
							return vk.Badf("valid key not saved", "%v", err)
						}
					}
					kp := newPool(pu)
					must(st.register(kp))
					kp.AddVerifyKey(signers[0].Pub)
					switch path {
					case "load":
						kp.LoadKey(&k)
					case "fetch":
						kp.RegisterStorage(func([]byte) ([]byte, error) { return enc, nil }, nil, nil)
					case "dir", "db, all":
						kp.Load()
					}
					got, err := kp.Lookup(k.KeyID)
					want := pu == "" || pu == ku
					switch {
					case err == nil && got != nil && !want:
						return vk.Badf("key served for another usage", "")
					case want && (err != nil || content(got) != content(&k)):
						return vk.Badf("valid key not found", "%v", err)
					}
					return nil
				})
				r.State(fmt.Sprint("usage", ki, pu))
			}
		}
	}
}

// chains: several sources registered one after the other; a key that one of
// them has is found, if those before it do not answer otherwise.
func chains() {
	if !vk.Mine(2) {
		return
	}
	clock.Freeze(now)
	answers := []string{"error", "the key", "another key", "garbage"}
	var walk func(chain []int)
	walk = func(chain []int) {
		if len(chain) > 0 {
			var parts []string
			for _, a := range chain {
				parts = append(parts, answers[a])
			}
			name := "sources: " + strings.Join(parts, ", then ")
			do(name, func() error {
				kp := newPool("u")
				kp.AddVerifyKey(signers[0].Pub)
				for _, a := range chain {
					a := a
					kp.RegisterStorage(func([]byte) ([]byte, error) {
						switch a {
						case 1:
							return keys[1].enc, nil
						case 2:
							return keys[0].enc, nil
						case 3:
							return []byte("garbage"), nil
						}
						return nil, errors.New("no answer")
					}, nil, nil)
				}
				// the sources are asked in one order or the other
				sure, never := true, true
				first, last := -1, -1
				for _, a := range chain {
					if a != 0 {
						if first < 0 {
							first = a
						}
						last = a
					}
					never = never && a != 1
				}
				sure = first == 1 && last == 1
				got, err := kp.Lookup(keys[1].k.KeyID)
				switch {
				case err == nil && (got == nil || content(got) != content(&keys[1].k)):
					return vk.Badf("other key served", "%s", content(got))
				case err == nil && never:
					return vk.Badf("key served that must not be", "")
				case err != nil && sure:
					return vk.Badf("valid key not found", "%v", err)
				}
				return nil
			})
			r.Trace()
		}
		if len(chain) < 4 {
			for a := range answers {
				walk(append(append([]int{}, chain...), a))
			}
		}
	}
	walk(nil)
}

func main() {
	r = vk.Start("C21")
	r.Fork()
	r.Assume("Ed25519, SHA-256, SQLite and the file system are trusted; the race detector's happens-before analysis decides whether concurrent operations can corrupt memory.")
	makeKeys()
	histories()
	generator(nil)
	generator([]string{"dir"})
	damaged()
	lookups()
	usages()
	chains()
	races()
	r.Done()
}
