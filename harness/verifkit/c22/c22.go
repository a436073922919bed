// C22: client configuration. All alterations of a signed configuration, all
// positions of its signing time, all outcomes of the servers asked and all
// short histories of updates are tried on the real client against local
// servers; what it has installed afterwards is compared with a reference.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/configclient/cahash"
	"github.com/mutecomm/mute/configclient/roundrobin"
	"github.com/mutecomm/mute/configclient/sortedmap"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	"github.com/mutecomm/mute/verifkit/jsonmut"
)

var r *vk.R

const (
	now    = 1500000000
	maxAge = 14400
)

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---- the reference

type doc struct {
	Config    map[string]string
	Signature []byte
	SignDate  uint64
}

func image(m map[string]string, date uint64) []byte {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := sha512.New()
	n := 0
	num := func(v int) {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(v))
		h.Write(b[:])
	}
	for _, k := range ks {
		for _, s := range []string{k, m[k]} {
			num(len(s))
			h.Write([]byte(s))
			n += 8 + len(s)
		}
	}
	num(n)
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], date)
	return append(h.Sum(nil), b[:]...)
}

type keypair struct {
	pub  []byte
	priv *[64]byte
}

func newKey(b byte) keypair {
	k := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{b}, 32))
	p := new([64]byte)
	copy(p[:], k)
	return keypair{k[32:], p}
}

func sign(m map[string]string, date uint64, k keypair) []byte {
	return ed25519.Sign(k.priv[:], image(m, date))
}

func make1(m map[string]string, date uint64, k keypair) []byte {
	b, err := json.Marshal(doc{m, sign(m, date, k), date})
	must(err)
	return b
}

func good(d *doc, last uint64, k keypair, at uint64) bool {
	if d.SignDate < last {
		return false
	}
	diff := int64(d.SignDate - at)
	if d.SignDate > 1<<62 || diff > maxAge || diff < -maxAge {
		return false
	}
	return len(d.Signature) == 64 && ed25519.Verify(k.pub, image(d.Config, d.SignDate), d.Signature)
}

// ---- certificates

func newCert(cn string) []byte {
	priv, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(5), Subject: pkix.Name{CommonName: cn},
		NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0), IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &priv.PublicKey, priv)
	must(err)
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func pin(cert []byte) string {
	b, _ := pem.Decode(cert)
	h := sha512.Sum512(b.Bytes)
	return hex.EncodeToString(h[:])
}

// trusted are the hashes of the certificates a TLS client takes from cert.
func trusted(cert []byte) []string {
	var l []string
	for len(cert) > 0 {
		var b *pem.Block
		if b, cert = pem.Decode(cert); b == nil {
			break
		}
		if b.Type != "CERTIFICATE" || len(b.Headers) != 0 {
			continue
		}
		if _, err := x509.ParseCertificate(b.Bytes); err != nil {
			continue
		}
		h := sha512.Sum512(b.Bytes)
		l = append(l, hex.EncodeToString(h[:]))
	}
	return l
}

// ---- servers

type farm struct {
	l    net.Listener
	mu   sync.Mutex
	conf map[string][]byte // nil: drop the connection
	ca   map[string][]byte
	seen []string
}

func newFarm() *farm {
	f := &farm{conf: map[string][]byte{}, ca: map[string][]byte{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	f.l = l
	go (&http.Server{Handler: f}).Serve(l)
	return f
}

func (f *farm) url(s string) string { return f.l.Addr().String() + "/" + s }

func (f *farm) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	p := strings.Split(strings.Trim(q.URL.Path, "/"), "/")
	f.mu.Lock()
	f.seen = append(f.seen, strings.Join(p, "/"))
	var b []byte
	if len(p) == 2 && p[1] == "config" {
		b = f.conf[p[0]]
	} else if len(p) == 2 && p[1] == "cacert" {
		b = f.ca[p[0]]
	}
	f.mu.Unlock()
	if b == nil {
		panic(http.ErrAbortHandler)
	}
	w.Write(b)
}

func (f *farm) reset() {
	f.mu.Lock()
	f.seen, f.conf, f.ca = nil, map[string][]byte{}, map[string][]byte{}
	f.mu.Unlock()
}

func (f *farm) requests() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]string{}, f.seen...)
}

// ---- configurations by themselves

func settings() map[string]string {
	return map[string]string{"CACertHash": strings.Repeat("ab", 64), "mix.MaxDelay": "300", "walletrpc.ServiceURL": "http://x/", "": "e"}
}

func single() {
	k, other := newKey(1), newKey(2)
	base := make1(settings(), now, k)
	judge := func(desc string, b []byte, last uint64, key keypair) {
		do(desc, func() error {
			d := new(doc)
			ok := json.Unmarshal(b, d) == nil && good(d, last, key, now)
			m, err := sortedmap.Certify(last, key.pub, b)
			if ok && err != nil {
				return vk.Badf("valid configuration refused", "%v: %s", err, b)
			}
			if !ok && err == nil {
				return vk.Badf("invalid configuration accepted", "%s", b)
			}
			if ok && (len(m.Config) != len(d.Config) || m.SignDate != d.SignDate || len(d.Config) > 0 && !reflect.DeepEqual(map[string]string(m.Config), d.Config)) {
				return vk.Badf("configuration changed on acceptance", "%v is not %v", m.Config, d.Config)
			}
			return nil
		})
	}
	muts := append(jsonmut.All(base, true), jsonmut.Raw(base)...)
	r.Parallel(len(muts), func(i int) {
		m := muts[i]
		desc := fmt.Sprintf("configuration with %s %s", m.Path, m.What)
		judge(desc, m.Doc, 0, k)
		judge(desc+" for another key", m.Doc, 0, other)
		// Signed again, as it is understood.
		d := new(doc)
		if json.Unmarshal(m.Doc, d) == nil {
			for n, s := range []keypair{k, other} {
				b, err := json.Marshal(doc{d.Config, sign(d.Config, d.SignDate, s), d.SignDate})
				must(err)
				judge(fmt.Sprintf("%s signed again by %d", desc, n), b, 0, k)
				judge(fmt.Sprintf("%s signed again by %d, newer installed", desc, n), b, now+1, k)
			}
		}
	})
	// Signing time, the present and the one installed.
	for _, t := range []uint64{0, 1, now - 100000, now - maxAge - 1, now - maxAge, now - maxAge + 1, now - 1, now, now + 1, now + maxAge - 1, now + maxAge,
		now + maxAge + 1, 2 * now, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + now, 1<<64 - 1} {
		for _, last := range []uint64{0, 1, t - 1, t, t + 1, now - maxAge, now, now + maxAge, 1<<64 - 1} {
			judge(fmt.Sprintf("signed at %d, installed from %d", t, last), make1(settings(), t, k), last, k)
			// The date is part of what is signed.
			b, err := json.Marshal(doc{settings(), sign(settings(), t+1, k), t})
			must(err)
			judge(fmt.Sprintf("signed at %d, stating %d, installed from %d", t+1, t, last), b, last, k)
		}
	}
	// Every pair of small maps: one's signature is not the other's.
	words := []string{"", "a", "b", "ab", "\x00", "\x00\x00\x00\x00\x00\x00\x00\x01a", "a\x00\x00\x00\x00\x00\x00\x00\x00"}
	maps := []map[string]string{nil, {}}
	for _, x := range words {
		for _, y := range words {
			maps = append(maps, map[string]string{x: y})
			for _, u := range words {
				for _, v := range words {
					if u > x && (r.Thorough() || len(x)+len(y)+len(u)+len(v) < 12) {
						maps = append(maps, map[string]string{x: y, u: v})
					}
				}
			}
		}
	}
	sigs := make([][]byte, len(maps))
	imgs := map[string]int{}
	for i, m := range maps {
		desc := fmt.Sprintf("map %d %q", i, m)
		do(desc, func() error {
			sm := sortedmap.StringMap(m)
			sigs[i] = sm.Sort().Sign(now, k.priv)
			if !sm.Sort().Verify(now, k.pub, sigs[i]) {
				return vk.Badf("own signature refused", "%q", m)
			}
			back := sm.Sort().ToMap()
			if len(back) != len(m) || len(m) > 0 && !reflect.DeepEqual(map[string]string(back), m) {
				return vk.Badf("map changed by sorting", "%q is not %q", back, m)
			}
			if j, ok := imgs[string(sm.Sort().Image())]; ok && !(len(maps[j]) == 0 && len(m) == 0) {
				return vk.Badf("two maps have the same image", "%q and %q", m, maps[j])
			}
			imgs[string(sm.Sort().Image())] = i
			for n := 0; n < 5; n++ {
				if !bytes.Equal(sm.Sort().Image(), sm.Sort().Image()) {
					return vk.Badf("the image of a map is not always the same", "%q", m)
				}
			}
			b, err := sm.GenerateCertificate(k.priv)
			must(err)
			c, err := sortedmap.Certify(0, k.pub, b)
			if err != nil || c.SignDate != now {
				return vk.Badf("own configuration refused", "%v", err)
			}
			return nil
		})
	}
	r.Parallel(len(maps), func(i int) {
		do(fmt.Sprintf("signature of map %d for all others", i), func() error {
			for j := range maps {
				if j == i || len(maps[i]) == 0 && len(maps[j]) == 0 {
					continue
				}
				if r.Thorough() || (i+j)%7 == 0 {
					if sortedmap.StringMap(maps[j]).Sort().Verify(now, k.pub, sigs[i]) {
						return vk.Badf("signature of another map accepted", "%q for %q", maps[i], maps[j])
					}
				}
			}
			return nil
		})
	})
}

// ---- the list of servers

func lists() {
	prios := []string{"1", "2", "10", "0", "-3", "x"}
	val := map[string]int{"1": 1, "2": 2, "10": 10, "0": 0, "-3": -3, "x": 0}
	for n := 0; n <= 4; n++ {
		vk.Sequences(len(prios), n, func(seq []int) {
			var parts []string
			want := map[string]int{}
			for i, p := range seq {
				parts = append(parts, fmt.Sprintf("%s,h%d", prios[p], i))
				want[fmt.Sprintf("http://h%d", i)] = val[prios[p]]
			}
			for _, sep := range []string{";", " ; ", " "} {
				s := strings.Join(parts, sep)
				do("servers "+s, func() error {
					l := roundrobin.ParseServers(s)
					if len(l) != n || l.Len() != n || len(l.MakeStrings()) != n {
						return vk.Badf("servers lost or invented", "%q: %v", s, l.MakeStrings())
					}
					sort.Sort(l)
					o := l.Order()
					seen := map[string]bool{}
					for i, u := range o {
						p, ok := want[u]
						if !ok || seen[u] {
							return vk.Badf("servers lost or invented", "%q: %v", s, o)
						}
						seen[u] = true
						if i > 0 && want[o[i-1]] > p {
							return vk.Badf("servers out of order", "%q: %v", s, o)
						}
					}
					if len(o) != n {
						return vk.Badf("servers lost or invented", "%q: %v", s, o)
					}
					return nil
				})
			}
		})
	}
	for _, s := range []string{"", ";", ",", "10", "10,", ",h", "10,h;", ";;10,h", "10,h,x", "h;10", " ", "10;h"} {
		do(fmt.Sprintf("odd list %q", s), func() error {
			l := roundrobin.ParseServers(s)
			sort.Sort(l)
			if len(l.Order()) != len(l) {
				return vk.Badf("servers lost or invented", "%q", s)
			}
			c := &configclient.Config{PublicKey: newKey(1).pub, URLList: s, Timeout: 2}
			if len(l) == 0 && c.Update() == nil {
				return vk.Badf("configuration without servers", "%q", s)
			}
			return nil
		})
	}
}

// ---- updates

type inst struct {
	Map  map[string]string
	Last uint64
	CA   []byte
}

func state(c *configclient.Config) inst { return inst{c.Map, c.LastSignDate, c.CACert} }

func (a inst) same(b inst) bool {
	return len(a.Map) == len(b.Map) && (len(a.Map) == 0 || reflect.DeepEqual(a.Map, b.Map)) && a.Last == b.Last && bytes.Equal(a.CA, b.CA)
}

func (a inst) String() string {
	return fmt.Sprintf("%v from %d with CA of %d bytes", a.Map, a.Last, len(a.CA))
}

// answers a server may give to a request for the configuration.
var confNames = []string{"good", "drop", "garbage", "other key", "too old", "rolled back", "cut", "empty", "null"}

func confAnswer(n string, m map[string]string, date uint64, k keypair) []byte {
	b := make1(m, date, k)
	switch n {
	case "good":
		return b
	case "drop":
		return nil
	case "garbage":
		return []byte("<html>not found</html>")
	case "other key":
		return make1(m, date, newKey(9))
	case "too old":
		return make1(m, now-maxAge-5, k)
	case "rolled back":
		return make1(m, date-1000, k)
	case "cut":
		return b[:len(b)/2]
	case "empty":
		return []byte{}
	case "null":
		return []byte("null")
	}
	panic(n)
}

var caNames = []string{"good", "drop", "other", "garbage", "empty", "followed by another", "other type"}

func caAnswer(n string, good, other []byte) []byte {
	switch n {
	case "good":
		return good
	case "drop":
		return nil
	case "other":
		return other
	case "garbage":
		return []byte("<html>")
	case "empty":
		return []byte{}
	case "followed by another":
		return append(append([]byte{}, good...), other...)
	case "other type":
		return bytes.Replace(good, []byte("CERTIFICATE"), []byte("SOMETHING"), -1)
	}
	panic(n)
}

// check compares what is installed with the reference after an update.
func check(c *configclient.Config, before inst, err error, ok bool, want inst) error {
	got := state(c)
	if !ok {
		if err == nil {
			return vk.Badf("update succeeds without a valid configuration", "%v", got)
		}
		if before.Last == 0 && got.Last < now && got.Last != 0 {
			got.Last = 0 // nothing was installed yet
		}
		if !got.same(before) {
			return vk.Badf("failed update changes the configuration", "%v was %v", got, before)
		}
		return nil
	}
	if err != nil {
		return vk.Badf("update fails although a server delivers", "%v", err)
	}
	if !reflect.DeepEqual(got.Map, want.Map) || got.Last != want.Last {
		return vk.Badf("update installs something else", "%v is not %v", got, want)
	}
	if h, pinned := want.Map["CACertHash"]; pinned {
		t := trusted(got.CA)
		if len(t) != 1 || t[0] != strings.ToLower(h) {
			return vk.Badf("certificates other than the pinned one are trusted", "%d of them", len(t))
		}
	} else if !bytes.Equal(got.CA, before.CA) {
		return vk.Badf("certificate changed although none is pinned", "")
	}
	return nil
}

func updates(ca, ca2 []byte) {
	k := newKey(1)
	// What three servers deliver, for all orders of their priorities.
	pr := [][]int{{1, 2, 3}, {3, 2, 1}, {2, 2, 2}, {1, 1, 2}, {2, 1, 1}, {2, 1, 3}}
	type tc struct {
		conf [3]int
		prio []int
		pin  bool
	}
	var cases []tc
	vk.Sequences(len(confNames), 3, func(s []int) {
		for _, p := range pr {
			if !r.Thorough() && p[0] == 2 && p[1] == 1 && p[2] == 1 {
				continue
			}
			cases = append(cases, tc{[3]int{s[0], s[1], s[2]}, p, (s[0]+s[1]+s[2])%2 == 0})
		}
	})
	const shards = 32
	farms := make([]*farm, shards)
	for i := range farms {
		farms[i] = newFarm()
	}
	run := func(desc string, f *farm, prio []int, conf, cas []string, m map[string]string, start *configclient.Config) {
		do(desc, func() error {
			f.reset()
			date := uint64(now - 10)
			var list []string
			for i := range conf {
				s := fmt.Sprintf("s%d", i)
				list = append(list, fmt.Sprintf("%d,%s", prio[i], f.url(s)))
				f.mu.Lock()
				f.conf[s] = confAnswer(conf[i], m, date, k)
				f.ca[s] = caAnswer(cas[i], ca, ca2)
				f.mu.Unlock()
			}
			c := &configclient.Config{PublicKey: k.pub, URLList: strings.Join(list, ";"), Timeout: 20}
			if start != nil {
				*c = *start
				c.PublicKey, c.URLList = k.pub, strings.Join(list, ";")
			}
			before := state(c)
			valid := func(i int) bool { // does server i deliver?
				return conf[i] == "good" || conf[i] == "rolled back" && before.Last <= date-1000
			}
			for try := 0; try < 2; try++ {
				before := state(c)
				f.mu.Lock()
				f.seen = nil
				f.mu.Unlock()
				err := c.Update()
				// The one that delivered, by what was asked.
				ok, want := false, before
				asked := map[int]bool{}
				lastPrio := -1 << 30
				for _, q := range f.requests() {
					var i int
					var what string
					if _, e := fmt.Sscanf(strings.Replace(q, "/", " ", 1), "s%d %s", &i, &what); e != nil {
						return vk.Badf("unknown request", "%s", q)
					}
					if what != "config" || ok {
						continue
					}
					if prio[i] < lastPrio {
						return vk.Badf("servers asked out of order", "%v for priorities %v", f.requests(), prio)
					}
					lastPrio = prio[i]
					asked[i] = true
					if valid(i) && (try == 0 || conf[i] == "good" || date-1000 >= before.Last) {
						ok = true
						want.Map, want.Last = m, date
						if conf[i] == "rolled back" {
							want.Last = date - 1000
						}
						for j := range conf {
							if prio[j] < prio[i] && !asked[j] {
								return vk.Badf("servers asked out of order", "%v for priorities %v", f.requests(), prio)
							}
						}
					}
				}
				if !ok {
					for i := range conf {
						if !asked[i] {
							return vk.Badf("server never asked", "%d: %v", i, f.requests())
						}
					}
				} else if h, pinned := m["CACertHash"]; pinned {
					have := cas[0] == "good" || cas[1] == "good" || cas[2] == "good"
					if t := trusted(before.CA); len(t) == 1 && t[0] == strings.ToLower(h) {
						have = true
					}
					ok = have
				}
				if err := check(c, before, err, ok, want); err != nil {
					return err
				}
				r.Outcome(fmt.Sprintf("installed %v", ok))
			}
			return nil
		})
	}
	pinned := map[string]string{"a": "1", "CACertHash": pin(ca)}
	free := map[string]string{"a": "1"}
	r.Parallel(shards, func(sh int) {
		for i, t := range cases {
			if i%shards != sh {
				continue
			}
			m := free
			if t.pin {
				m = pinned
			}
			var conf []string
			for _, x := range t.conf {
				conf = append(conf, confNames[x])
			}
			run(fmt.Sprintf("servers %v priorities %v pin %v", conf, t.prio, t.pin), farms[sh], t.prio, conf, []string{"good", "good", "good"}, m, nil)
		}
	})
	// What they deliver as certificate.
	var cs [][3]int
	vk.Sequences(len(caNames), 3, func(s []int) { cs = append(cs, [3]int{s[0], s[1], s[2]}) })
	r.Parallel(shards, func(sh int) {
		for i, t := range cs {
			if i%shards != sh {
				continue
			}
			cas := []string{caNames[t[0]], caNames[t[1]], caNames[t[2]]}
			for _, conf := range [][]string{{"good", "good", "good"}, {"drop", "good", "garbage"}, {"garbage", "drop", "good"}} {
				for si, start := range []*configclient.Config{nil, {CACert: ca2, Map: free, LastSignDate: now - 5000}, {CACert: ca, Map: free, LastSignDate: now - 5000}, {CACert: []byte("rubbish"), Map: free}, {CACert: ca2, Map: free, LastSignDate: 1000}} {
					if si == 3 {
						continue // an installed certificate is one accepted earlier
					}
					m := pinned
					run(fmt.Sprintf("certificates %v configurations %v installed %d", cas, conf, si), farms[sh], []int{1, 2, 3}, conf, cas, m, start)
					if si == 1 && t[0] == 0 {
						up := map[string]string{"CACertHash": strings.ToUpper(pin(ca))}
						run(fmt.Sprintf("certificates %v configurations %v installed %d upper case", cas, conf, si), farms[sh], []int{1, 2, 3}, conf, cas, up, start)
					}
				}
			}
		}
	})
	for n, h := range []string{"x", "ab", pin(ca)[:126], pin(ca) + "00", pin(ca2)} {
		run1 := map[string]string{"CACertHash": h}
		do(fmt.Sprintf("pinned hash %d", n), func() error {
			f := farms[0]
			f.reset()
			f.conf["s"], f.ca["s"] = make1(run1, now, k), ca
			c := &configclient.Config{PublicKey: k.pub, URLList: "1," + f.url("s"), Timeout: 20}
			before := state(c)
			return check(c, before, c.Update(), false, before)
		})
	}
	// Configurations of every size that is transferred.
	for _, size := range []int{500, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 10000, 32768, 32769, 65535, 65536, 65537, 100000, 262145, 524289, 1048575, configclient.MaxReadBody} {
		for _, pins := range []bool{false, true} {
			size, m := size, map[string]string{"a": ""}
			if pins {
				m["CACertHash"] = pin(ca)
			}
			fill := size - len(make1(m, now, k))
			if fill < 0 {
				continue
			}
			m["a"] = strings.Repeat("x", fill)
			do(fmt.Sprintf("configuration of %d bytes, pinning %v", size, pins), func() error {
				f := farms[0]
				f.reset()
				b := make1(m, now, k)
				if len(b) != size {
					panic("size")
				}
				f.conf["s"], f.ca["s"] = b, ca
				c := &configclient.Config{PublicKey: k.pub, URLList: "1," + f.url("s"), Timeout: 20}
				want := inst{m, now, nil}
				if pins {
					want.CA = ca
				}
				before := state(c)
				return check(c, before, c.Update(), true, want)
			})
		}
	}
	// Certificates altered.
	muts := jsonmut.Raw(ca)
	muts = append(muts, jsonmut.Mut{What: "preamble", Doc: append([]byte("hello\n"), ca...)},
		jsonmut.Mut{What: "another before", Doc: append(append([]byte{}, ca2...), ca...)},
		jsonmut.Mut{What: "another behind", Doc: append(append([]byte{}, ca...), ca2...)},
		jsonmut.Mut{What: "another far behind", Doc: append(append(append([]byte{}, ca...), bytes.Repeat([]byte("\n"), 500)...), ca2...)},
		jsonmut.Mut{What: "twice", Doc: append(append([]byte{}, ca...), ca...)},
		jsonmut.Mut{What: "header", Doc: bytes.Replace(ca, []byte("-----\n"), []byte("-----\nX: y\n\n"), 1)})
	for _, typ := range []string{"X", "TRUSTED CERTIFICATE", "PUBLIC KEY", ""} {
		d := bytes.Replace(ca, []byte("CERTIFICATE"), []byte(typ), -1)
		muts = append(muts, jsonmut.Mut{What: "type " + typ, Doc: d}, jsonmut.Mut{What: "type " + typ + " and another behind", Doc: append(append([]byte{}, d...), ca2...)})
	}
	r.Parallel(len(muts), func(i int) {
		m := muts[i]
		do("certificate "+m.What, func() error {
			h, err := cahash.Hash(m.Doc)
			if err != nil {
				return nil
			}
			if t := trusted(m.Doc); len(t) != 1 || t[0] != hex.EncodeToString(h) {
				return vk.Badf("certificates other than the pinned one are trusted", "%d of them", len(t))
			}
			return nil
		})
	})
	do("certificate unaltered", func() error {
		h, err := cahash.Hash(ca)
		if err != nil || hex.EncodeToString(h) != pin(ca) {
			return vk.Badf("certificate hash wrong", "%v", err)
		}
		return nil
	})
}

// ---- histories

var ops = []string{"newer", "same date other content", "older", "unpinned newer", "other CA newer", "other CA not to be had", "down", "garbage then newer", "wrong key", "time passes"}

func histories(ca, ca2 []byte) {
	k := newKey(1)
	depth := r.Pick(4, 5)
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(ops)
	}
	const shards = 32
	farms := make([]*farm, shards)
	for i := range farms {
		farms[i] = newFarm()
	}
	// All histories of one length have the same prefix cases as shorter ones.
	fork := func(sh int) {
		f := farms[sh]
		for x := sh; x < n; x += shards {
			if r.Expired() {
				r.Cap("histories")
				return
			}
			var seq []int
			for v, i := x, 0; i < depth; i++ {
				seq = append(seq, v%len(ops))
				v /= len(ops)
			}
			var names []string
			for _, s := range seq {
				names = append(names, ops[s])
			}
			do("history "+strings.Join(names, ", "), func() error {
				f.reset()
				c := &configclient.Config{PublicKey: k.pub, URLList: fmt.Sprintf("1,%s;2,%s", f.url("a"), f.url("b")), Timeout: 20}
				var ref inst
				date, serial := uint64(now-2000), 0
				for _, s := range seq {
					serial++
					m := map[string]string{"serial": fmt.Sprint(serial), "CACertHash": pin(ca)}
					cert, d, key := ca, date, k
					var first []byte // what the first server says, if anything
					ok := true
					switch ops[s] {
					case "newer":
						date += 10
						d = date
					case "same date other content":
						d = ref.Last
						if ref.Last == 0 {
							d = date
						}
					case "older":
						d = ref.Last - 1
						if ref.Last == 0 {
							d = date
						} else {
							ok = false
						}
					case "unpinned newer":
						date += 10
						d = date
						delete(m, "CACertHash")
					case "other CA newer":
						date += 10
						d, cert = date, ca2
						m["CACertHash"] = pin(ca2)
					case "other CA not to be had":
						date += 10
						d = date
						m["CACertHash"] = pin(ca2)
						t := trusted(ref.CA)
						ok = len(t) == 1 && t[0] == pin(ca2)
					case "down":
						ok, cert = false, nil
					case "garbage then newer":
						date += 10
						d, first = date, []byte("?")
					case "wrong key":
						date += 10
						d, key, ok = date, newKey(9), false
					case "time passes":
						// Signed long ago, still newer than what is installed.
						if ref.Last != 0 {
							d = ref.Last
						}
						d, ok = now-maxAge-1, false
					}
					b := make1(m, d, key)
					if ops[s] == "down" {
						b = nil
					}
					f.mu.Lock()
					f.conf["a"], f.conf["b"] = b, b
					if first != nil {
						f.conf["a"] = first
					}
					f.ca["a"], f.ca["b"] = cert, cert
					f.mu.Unlock()
					before := state(c)
					err := c.Update()
					if err := check(c, before, err, ok, inst{m, d, cert}); err != nil {
						return err
					}
					r.Trans()
					if ok {
						if state(c).Last < ref.Last {
							return vk.Badf("configuration rolled back", "from %d to %d", ref.Last, state(c).Last)
						}
						ref = state(c)
					}
					r.State(fmt.Sprintf("%d %v %d", ref.Last, ref.Map, len(ref.CA)))
				}
				r.Trace()
				return nil
			})
		}
	}
	r.Parallel(shards, fork)
}

func main() {
	r = vk.Start("C22")
	clock.Freeze(now)
	r.Assume("Ed25519, SHA-512 and the X.509 and PEM readers of the standard library are trusted.")
	ca, ca2 := newCert("one"), newCert("two")
	single()
	lists()
	updates(ca, ca2)
	histories(ca, ca2)
	r.Done()
}
