// C16: the keys of a mix and their signed statement. All sequences of adding,
// expiring, saving, loading and waiting are run on real key lists and on a
// reference; all alterations of statements are verified.
package main

import (
	"bytes"
	"crypto/ecdh"
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/mutecomm/mute/mix/mixaddr"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	"github.com/mutecomm/mute/verifkit/mixkit"
)

var r *vk.R

const now = 1500000000

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

func signer(name string) *[64]byte {
	_, priv, err := ed25519.GenerateKey(vk.NewRand(name))
	if err != nil {
		panic(err)
	}
	var k [64]byte
	copy(k[:], priv)
	return &k
}

const frequency = 30

type key struct {
	id     int
	expire int64 // relative to now
}

// model is the reference: the keys that were added, which of them a list
// still has, and what was saved.
type model struct {
	t        int64
	durs     int
	keys     []key
	present  map[int]bool
	saved    []int // ids marshalled by the last save, nil if none
	hasSaved bool
	stmt     []int // what the statement lists; nil before there is one
	hasStmt  bool
	asked    bool // the statement was refreshed at this very time
}

func (m *model) Key() string {
	var s []string
	rel := func(ids []int) string {
		var e []string
		for _, i := range ids {
			e = append(e, fmt.Sprint(m.keys[i].expire-m.t))
		}
		sort.Strings(e)
		return strings.Join(e, ",")
	}
	var p []int
	for i := range m.present {
		p = append(p, i)
	}
	var gone []int
	for i := range m.keys {
		if !m.present[i] {
			gone = append(gone, i)
		}
	}
	s = append(s, rel(p), rel(gone), rel(m.saved), rel(m.stmt), fmt.Sprint(m.hasSaved, m.hasStmt, m.durs, m.asked))
	return strings.Join(s, "|")
}

type sys struct {
	kl    *mixaddr.KeyList
	dir   string
	pubs  []([32]byte)
	privs []([32]byte)
	saved []byte
}

func (s *sys) Close() { os.RemoveAll(s.dir) }

var durations = []int64{5, 20}

func (m *model) live(i int) bool { return m.keys[i].expire >= m.t }

func (m *model) expire() {
	for i := range m.present {
		if !m.live(i) {
			delete(m.present, i)
		}
	}
}

func (m *model) publish() {
	m.stmt = nil
	for i := range m.present {
		m.stmt = append(m.stmt, i)
	}
	sort.Ints(m.stmt)
	m.hasStmt, m.asked = true, true
}

func ops() []vk.Op {
	add := func(d int) vk.Op {
		return vk.Op{Name: fmt.Sprintf("add key for %d", durations[d]),
			Enabled: func(m vk.Model) bool { return len(m.(*model).keys) < 4 },
			Do: func(s vk.Sys, m vk.Model) error {
				S, M := s.(*sys), m.(*model)
				S.kl.Duration = durations[d]
				before := make(map[[32]byte]bool)
				for k := range S.kl.Keys {
					before[k] = true
				}
				S.kl.AddKey()
				n := 0
				for k, e := range S.kl.Keys {
					if before[k] {
						continue
					}
					n++
					x, err := ecdh.X25519().NewPrivateKey(e.Privkey)
					if err != nil || !bytes.Equal(x.PublicKey().Bytes(), k[:]) || !bytes.Equal(e.Pubkey, k[:]) {
						return vk.Badf("key pair", "%x does not belong to %x", e.Privkey, k)
					}
					var p [32]byte
					copy(p[:], e.Privkey)
					S.pubs, S.privs = append(S.pubs, k), append(S.privs, p)
				}
				if n != 1 {
					return vk.Badf("add", "%d new keys", n)
				}
				M.expire()
				M.keys = append(M.keys, key{len(M.keys), M.t + durations[d]})
				M.present[len(M.keys)-1] = true
				M.publish()
				return nil
			}}
	}
	wait := func(dt int64) vk.Op {
		return vk.Op{Name: fmt.Sprintf("wait %d", dt), Do: func(s vk.Sys, m vk.Model) error {
			clock.Advance(dt)
			M := m.(*model)
			M.t += dt
			M.asked = false
			return nil
		}}
	}
	return []vk.Op{add(0), add(1), wait(1), wait(5), wait(16),
		{Name: "expire", Do: func(s vk.Sys, m vk.Model) error {
			S, M := s.(*sys), m.(*model)
			S.kl.Expire()
			M.expire()
			if M.hasStmt {
				M.publish()
			}
			return nil
		}},
		{Name: "save", Do: func(s vk.Sys, m vk.Model) error {
			S, M := s.(*sys), m.(*model)
			S.saved = S.kl.Marshal()
			M.hasSaved = true
			M.saved = nil
			for i := range M.present {
				M.saved = append(M.saved, i)
			}
			sort.Ints(M.saved)
			return nil
		}},
		{Name: "load", Enabled: func(m vk.Model) bool { return m.(*model).hasSaved }, Do: func(s vk.Sys, m vk.Model) error {
			S, M := s.(*sys), m.(*model)
			if err := S.kl.Unmarshal(S.saved); err != nil {
				return vk.Badf("load", "%v", err)
			}
			M.present = make(map[int]bool)
			for _, i := range M.saved {
				M.present[i] = true
			}
			M.expire()
			M.publish()
			return nil
		}},
		{Name: "restart", Enabled: func(m vk.Model) bool { return m.(*model).hasSaved }, Do: func(s vk.Sys, m vk.Model) error {
			S, M := s.(*sys), m.(*model)
			S.kl = mixaddr.New(signer("mix"), "mix@mute.one", 20, frequency, S.dir)
			if err := S.kl.Unmarshal(S.saved); err != nil {
				return vk.Badf("load", "%v", err)
			}
			M.present = make(map[int]bool)
			for _, i := range M.saved {
				M.present[i] = true
			}
			M.expire()
			M.publish()
			return nil
		}},
		{Name: "load rubbish", Do: func(s vk.Sys, m vk.Model) error {
			if err := s.(*sys).kl.Unmarshal([]byte("[{]")); err == nil {
				return vk.Badf("load rubbish", "accepted")
			}
			return nil
		}},
	}
}

// check compares everything that can be asked.
func check(s vk.Sys, m vk.Model) error {
	S, M := s.(*sys), m.(*model)
	for i, k := range M.keys {
		left := k.expire - M.t
		pk := S.pubs[i]
		got := S.kl.GetPrivateKey(&pk)
		e := S.kl.GetKeyEntry(&pk)
		switch {
		case M.present[i] && left > 0:
			if got == nil || *got != S.privs[i] {
				return vk.Badf("private key missing", "key %d expiring in %d: %x", i, left, got)
			}
			if e == nil || e.Expire != now+k.expire || !bytes.Equal(e.Pubkey, pk[:]) || e.Address != "mix@mute.one" {
				return vk.Badf("key entry", "%+v", e)
			}
		case M.present[i] && left == 0: // the second of expiry itself
		default:
			if got != nil || e != nil {
				return vk.Badf("private key of expired address", "key %d expired %d ago, present %v", i, -left, M.present[i])
			}
		}
	}
	var none [32]byte
	if S.kl.GetPrivateKey(&none) != nil || S.kl.GetKeyEntry(&none) != nil {
		return vk.Badf("unknown key", "found")
	}
	st := S.kl.GetStatement()
	if !M.hasStmt {
		if st != nil && len(st.Addresses) != 0 {
			return vk.Badf("statement", "lists %d addresses before any was added", len(st.Addresses))
		}
	} else {
		if st == nil {
			return vk.Badf("statement", "none")
		}
		if !st.Verify() || !bytes.Equal(st.PublicKey, S.kl.PublicKey[:]) {
			return vk.Badf("statement signature", "does not verify under the mix's key")
		}
		b, err := json.Marshal(st)
		if err != nil {
			return err
		}
		var back mixaddr.AddressStatement
		if err := json.Unmarshal(b, &back); err != nil || !back.Verify() {
			return vk.Badf("statement encoding", "does not verify after transport: %v", err)
		}
		listed := make(map[string]mixaddr.Address)
		for _, a := range st.Addresses {
			listed[string(a.Pubkey)] = a
		}
		if len(listed) != len(st.Addresses) {
			return vk.Badf("statement", "an address twice")
		}
		want := make(map[int]bool)
		for _, i := range M.stmt {
			want[i] = true
		}
		for i, k := range M.keys {
			pk := S.pubs[i]
			a, ok := listed[string(pk[:])]
			left := k.expire - M.t
			// at the time of refreshing it lists exactly the unexpired ones
			if left == 0 && M.asked {
				delete(listed, string(pk[:]))
				continue
			}
			if ok != want[i] {
				if left == 0 || !M.asked && left <= 0 {
					delete(listed, string(pk[:]))
					continue
				}
				return vk.Badf("statement content", "key %d (expires in %d) listed: %v", i, left, ok)
			}
			if ok {
				delete(listed, string(pk[:]))
				if a.Expire != now+k.expire || a.Address != "mix@mute.one" || !bytes.Equal(a.TokenKey, S.kl.PublicKey[:]) {
					return vk.Badf("statement entry", "%+v", a)
				}
				if left > 0 {
					if p := S.kl.GetPrivateKey(&pk); p == nil {
						return vk.Badf("published without private key", "key %d", i)
					}
				}
			}
		}
		if len(listed) != 0 {
			return vk.Badf("statement", "lists unknown addresses")
		}
		// what a client takes from it
		n := 0
		for _, i := range M.stmt {
			if M.keys[i].expire > M.t {
				n++
			}
		}
		if l := (mixaddr.AddressList{}).AddStatement(*st); len(l) != n {
			return vk.Badf("client list", "%d instead of %d addresses", len(l), n)
		}
	}
	first, last := S.kl.GetBoundaryTime()
	var wf, wl int64
	for i := range M.present {
		e := M.keys[i].expire + now
		if wf == 0 || e < wf {
			wf = e
		}
		if e > wl {
			wl = e
		}
	}
	if first != wf || last != wl {
		return vk.Badf("boundary", "%d %d instead of %d %d", first-now, last-now, wf-now, wl-now)
	}
	r.State(m.Key())
	return nil
}

func sequences() {
	n := 0
	l := &vk.Lockstep{
		Name: "keys", Ops: ops(), Depth: r.Pick(7, 9), Merge: true, Check: check,
		New: func() (vk.Sys, vk.Model, error) {
			clock.Freeze(now)
			n++
			dir := filepath.Join(os.Getenv("VK_SCRATCH"), fmt.Sprintf("keys%d-%d", os.Getpid(), n))
			if os.Getenv("VK_SCRATCH") == "" {
				dir = filepath.Join(os.TempDir(), fmt.Sprintf("keys%d-%d", os.Getpid(), n))
			}
			return &sys{kl: mixaddr.New(signer("mix"), "mix@mute.one", 20, frequency, dir), dir: dir},
				&model{present: make(map[int]bool)}, nil
		},
	}
	if !l.Explore(r) {
		r.Cap("sequences")
	}
	// the file written when a key is added loads to the same keys
	do("saved file", func() error {
		clock.Freeze(now)
		dir := filepath.Join(os.TempDir(), fmt.Sprintf("file%d", os.Getpid()))
		defer os.RemoveAll(dir)
		kl := mixaddr.New(signer("mix"), "mix@mute.one", 20, frequency, dir)
		for i := 1; i < 6; i++ {
			kl.AddKey()
			b, err := ioutil.ReadFile(filepath.Join(dir, fmt.Sprintf("keys.%d", now+3*(i-1))))
			if err != nil {
				return vk.Badf("file", "%v", err)
			}
			k2 := mixaddr.New(signer("mix"), "mix@mute.one", 20, frequency, dir)
			if err := k2.Unmarshal(b); err != nil {
				return vk.Badf("file", "%v", err)
			}
			if len(k2.Keys) != i {
				return vk.Badf("file", "%d keys instead of %d", len(k2.Keys), i)
			}
			for k := range kl.Keys {
				a, b := kl.GetPrivateKey(&k), k2.GetPrivateKey(&k)
				if a == nil || b == nil || *a != *b {
					return vk.Badf("file", "key lost")
				}
			}
			clock.Advance(3)
		}
		return nil
	})
}

func addr(i int, n int64, where string) mixaddr.Address {
	return mixaddr.Address{Pubkey: mixkit.B32(fmt.Sprint("pub", i)), Expire: n, Address: where, TokenKey: mixkit.B32(fmt.Sprint("tok", i))}
}

func clone(st mixaddr.AddressStatement) mixaddr.AddressStatement {
	c := mixaddr.AddressStatement{Signature: mixkit.Copy(st.Signature), PublicKey: mixkit.Copy(st.PublicKey)}
	for _, a := range st.Addresses {
		c.Addresses = append(c.Addresses, mixaddr.Address{Pubkey: mixkit.Copy(a.Pubkey), Expire: a.Expire, Address: a.Address, TokenKey: mixkit.Copy(a.TokenKey)})
	}
	return c
}

// statements: every alteration of a signed statement.
func statements() {
	clock.Freeze(now)
	k := signer("mix")
	other := signer("other")
	for n := 0; n <= 4; n++ {
		var l mixaddr.AddressList
		for i := 0; i < n; i++ {
			l = append(l, addr(i, now+int64(i)*100+1, fmt.Sprintf("mix%d@mute.one", i)))
		}
		st := l.Statement(k)
		refuse := func(d string, f func(s *mixaddr.AddressStatement)) {
			sig := "altered statement accepted"
			if strings.HasPrefix(d, "boundary:") {
				sig = "statement boundary: " + strings.Join(strings.FieldsFunc(d[10:], func(c rune) bool { return c >= '0' && c <= '9' }), "N")
			}
			do(fmt.Sprintf("statement of %d: %s", n, d), func() error {
				c := clone(st)
				f(&c)
				if c.Verify() {
					return vk.Badf(sig, "%s", d)
				}
				if l := (mixaddr.AddressList{}).AddStatement(c); len(l) != 0 {
					return vk.Badf("addresses of a bad statement used", "%s", d)
				}
				one := mixaddr.AddressList{addr(77, now+50, "own@mute.one")}
				if l := one.AddStatement(c); !reflect.DeepEqual(l, one) {
					return vk.Badf("addresses of a bad statement used", "%s: added to others", d)
				}
				return nil
			})
		}
		do(fmt.Sprintf("statement of %d", n), func() error {
			if !st.Verify() {
				return vk.Badf("statement refused", "")
			}
			var pub [32]byte
			copy(pub[:], k[32:])
			var sig [64]byte
			copy(sig[:], l.Sign(k))
			if !l.Verify(&pub, &sig) {
				return vk.Badf("signature refused", "")
			}
			copy(pub[:], other[32:])
			if l.Verify(&pub, &sig) {
				return vk.Badf("signature of another key", "")
			}
			if got := (mixaddr.AddressList{}).AddStatement(st); len(got) != n {
				return vk.Badf("add statement", "%d", len(got))
			}
			one := mixaddr.AddressList{addr(77, now+50, "own@mute.one")}
			if got := one.AddStatement(st); len(got) != n+1 || !reflect.DeepEqual(got[:1], one) {
				return vk.Badf("add statement", "to another: %d", len(got))
			}
			return nil
		})
		for i := 0; i < 64; i++ {
			for b := uint(0); b < 8; b++ {
				i, b := i, b
				refuse(fmt.Sprintf("signature byte %d bit %d", i, b), func(s *mixaddr.AddressStatement) { s.Signature[i] ^= 1 << b })
				if i < 32 {
					refuse(fmt.Sprintf("key byte %d bit %d", i, b), func(s *mixaddr.AddressStatement) { s.PublicKey[i] ^= 1 << b })
				}
			}
			refuse(fmt.Sprintf("signature cut to %d", i), func(s *mixaddr.AddressStatement) { s.Signature = s.Signature[:i] })
			if i < 32 {
				refuse(fmt.Sprintf("key cut to %d", i), func(s *mixaddr.AddressStatement) { s.PublicKey = s.PublicKey[:i] })
			}
		}
		refuse("longer signature", func(s *mixaddr.AddressStatement) { s.Signature = append(s.Signature, 0) })
		refuse("longer key", func(s *mixaddr.AddressStatement) { s.PublicKey = append(s.PublicKey, 1) })
		refuse("no key", func(s *mixaddr.AddressStatement) { s.PublicKey = nil })
		refuse("no signature", func(s *mixaddr.AddressStatement) { s.Signature = nil })
		refuse("key of another", func(s *mixaddr.AddressStatement) { s.PublicKey = other[32:] })
		refuse("another address", func(s *mixaddr.AddressStatement) { s.Addresses = append(s.Addresses, addr(9, now+1000, "x@y")) })
		refuse("empty address added", func(s *mixaddr.AddressStatement) { s.Addresses = append(s.Addresses, mixaddr.Address{}) })
		for i := 0; i < n; i++ {
			i := i
			refuse(fmt.Sprintf("without address %d", i), func(s *mixaddr.AddressStatement) {
				s.Addresses = append(s.Addresses[:i], s.Addresses[i+1:]...)
			})
			for j := 0; j < n; j++ {
				j := j
				if i < j {
					refuse(fmt.Sprintf("addresses %d %d exchanged", i, j), func(s *mixaddr.AddressStatement) {
						s.Addresses[i], s.Addresses[j] = s.Addresses[j], s.Addresses[i]
					})
					for f, g := range []func(a, b *mixaddr.Address){
						func(a, b *mixaddr.Address) { a.Pubkey, b.Pubkey = b.Pubkey, a.Pubkey },
						func(a, b *mixaddr.Address) { a.Expire, b.Expire = b.Expire, a.Expire },
						func(a, b *mixaddr.Address) { a.Address, b.Address = b.Address, a.Address },
						func(a, b *mixaddr.Address) { a.TokenKey, b.TokenKey = b.TokenKey, a.TokenKey },
					} {
						g := g
						refuse(fmt.Sprintf("field %d of addresses %d %d exchanged", f, i, j), func(s *mixaddr.AddressStatement) { g(&s.Addresses[i], &s.Addresses[j]) })
					}
				}
				refuse(fmt.Sprintf("address %d repeated at %d", i, j), func(s *mixaddr.AddressStatement) {
					t := append(mixaddr.AddressList{}, s.Addresses[:j]...)
					t = append(t, s.Addresses[i])
					s.Addresses = append(t, s.Addresses[j:]...)
				})
				if i != j {
					refuse(fmt.Sprintf("address %d replaced by %d", i, j), func(s *mixaddr.AddressStatement) { s.Addresses[i] = s.Addresses[j] })
				}
			}
			for _, d := range []int64{1, -1, 2, 256, 1 << 16, 1 << 32, 1 << 40, -1 << 62} {
				d := d
				refuse(fmt.Sprintf("expiry of %d by %d", i, d), func(s *mixaddr.AddressStatement) { s.Addresses[i].Expire += d })
			}
			for p := 0; p < 32; p++ {
				for b := uint(0); b < 8; b++ {
					p, b := p, b
					refuse(fmt.Sprintf("address %d key byte %d bit %d", i, p, b), func(s *mixaddr.AddressStatement) { s.Addresses[i].Pubkey[p] ^= 1 << b })
					refuse(fmt.Sprintf("address %d token key byte %d bit %d", i, p, b), func(s *mixaddr.AddressStatement) { s.Addresses[i].TokenKey[p] ^= 1 << b })
				}
				p := p
				refuse(fmt.Sprintf("address %d key cut to %d", i, p), func(s *mixaddr.AddressStatement) { s.Addresses[i].Pubkey = s.Addresses[i].Pubkey[:p] })
				refuse(fmt.Sprintf("address %d token key cut to %d", i, p), func(s *mixaddr.AddressStatement) { s.Addresses[i].TokenKey = s.Addresses[i].TokenKey[:p] })
			}
			at := l[i].Address
			for p := 0; p < len(at); p++ {
				p := p
				for c := 0; c < 128; c++ {
					c := byte(c)
					if c != at[p] {
						refuse(fmt.Sprintf("address %d text byte %d = %q", i, p, c), func(s *mixaddr.AddressStatement) {
							s.Addresses[i].Address = at[:p] + string([]byte{c}) + at[p+1:]
						})
					}
				}
				refuse(fmt.Sprintf("address %d text cut to %d", i, p), func(s *mixaddr.AddressStatement) { s.Addresses[i].Address = at[:p] })
			}
			refuse(fmt.Sprintf("address %d text longer", i), func(s *mixaddr.AddressStatement) { s.Addresses[i].Address += "x" })
			// bytes moved between neighbouring fields
			for p := 1; p <= len(at); p++ {
				p := p
				refuse(fmt.Sprintf("boundary: address %d gives %d bytes to token key", i, p), func(s *mixaddr.AddressStatement) {
					a := &s.Addresses[i]
					a.Address, a.TokenKey = at[:len(at)-p], append([]byte(at[len(at)-p:]), a.TokenKey...)
				})
			}
			refuse(fmt.Sprintf("boundary: address %d takes the token key", i), func(s *mixaddr.AddressStatement) {
				a := &s.Addresses[i]
				a.Address, a.TokenKey = a.Address+string(a.TokenKey), nil
			})
			if i > 0 {
				refuse(fmt.Sprintf("boundary: addresses %d and %d in one", i-1, i), func(s *mixaddr.AddressStatement) {
					a, b := &s.Addresses[i-1], &s.Addresses[i]
					e := make([]byte, 8)
					for k := range e {
						e[k] = byte(b.Expire >> uint(56-8*k))
					}
					a.Address += string(a.TokenKey) + string(b.Pubkey) + string(e) + b.Address
					a.TokenKey = b.TokenKey
					s.Addresses = append(s.Addresses[:i], s.Addresses[i+1:]...)
				})
			}
		}
	}
}

// lists: filtering by time, joining and encoding of lists.
func lists() {
	clock.Freeze(now)
	offs := []int64{-1000, -1, 1, 2, 1000}
	var seqs [][]int
	vk.Sequences(len(offs), r.Pick(5, 6), func(s []int) { seqs = append(seqs, append([]int(nil), s...)) })
	k := signer("mix")
	r.Parallel(len(seqs), func(i int) {
		do(fmt.Sprintf("list %v", seqs[i]), func() error {
			var l mixaddr.AddressList
			for j, o := range seqs[i] {
				l = append(l, addr(j, now+offs[o], fmt.Sprint("m", j)))
			}
			want := func(lim int64) (w mixaddr.AddressList) {
				for _, a := range l {
					if a.Expire > lim {
						w = append(w, a)
					}
				}
				return
			}
			same := func(a, b mixaddr.AddressList) bool {
				if len(a) != len(b) {
					return false
				}
				for i := range a {
					if !bytes.Equal(a[i].Pubkey, b[i].Pubkey) || a[i].Expire != b[i].Expire || a[i].Address != b[i].Address || !bytes.Equal(a[i].TokenKey, b[i].TokenKey) {
						return false
					}
				}
				return true
			}
			for _, at := range []int64{0, now, now - 500, now + 1, now + 500, now + 5000} {
				lim := at
				if lim == 0 {
					lim = now
				}
				if at == now+1 {
					// entries that expire just then may go either way
					for _, a := range l.Expire(at) {
						if a.Expire < lim {
							return vk.Badf("expire", "kept %d", a.Expire-now)
						}
					}
					continue
				}
				if !same(l.Expire(at), want(lim)) {
					return vk.Badf("expire", "at %d", at-now)
				}
			}
			var n mixaddr.AddressList
			if !same(n.Append(l...), want(now)) {
				return vk.Badf("append", "")
			}
			if !same(n.AddStatement(l.Statement(k)), want(now)) {
				return vk.Badf("add statement", "")
			}
			back, err := n.Unmarshal(l.Marshal())
			if err != nil || !same(back, want(now)) {
				return vk.Badf("encoding", "%v", err)
			}
			x := l.Rand()
			if (x == nil) != (len(l) == 0) {
				return vk.Badf("choice", "%v", x)
			}
			if x != nil {
				found := false
				for _, a := range l {
					found = found || bytes.Equal(a.Pubkey, x.Pubkey)
				}
				if !found {
					return vk.Badf("choice", "of an address not listed")
				}
			}
			return nil
		})
	})
}

func main() {
	r = vk.Start("C16")
	r.Fork()
	clock.Freeze(now)
	sequences()
	if vk.Mine(0) {
		statements()
	}
	lists()
	if r.Expired() {
		r.Cap("deadline")
	}
	r.Done()
}
