// C10: the key server's hash chain. mutecrypt's command engine runs against a
// key server whose every answer is altered; what is stored, what validates and
// which identity messages are taken over is compared with a reference.
package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"sort"
	"strings"

	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	ck "github.com/mutecomm/mute/verifkit/cryptkit"
	"github.com/mutecomm/mute/verifkit/jsonmut"
)

var r *vk.R

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func js(v interface{}) []byte {
	b, err := json.Marshal(v)
	must(err)
	return b
}

const domain = "mute.one"

const (
	ks = "keyserver@" + domain
	al = "alice@" + domain
	bo = "bob@" + domain
)

// item is an entry of the server's chain.
type item struct {
	id   string
	made *ck.Made
	text []byte             // the identity message
	key  ed25519.PrivateKey // the key its reply is signed with
	free bool               // needs no signature of the server
}

// chain is what a server serves.
type chain struct {
	items []*item
}

func (c *chain) entries() []string {
	var s []string
	for _, it := range c.items {
		s = append(s, it.made.Text())
	}
	return s
}

// add links an item to the end.
func (c *chain) add(id string, text []byte, key ed25519.PrivateKey, seed string) *item {
	it := &item{id: id, made: ck.Make(id, text, seed), text: text, key: key}
	c.items = append(c.items, it)
	c.link()
	return it
}

func (c *chain) link() {
	var prev []byte
	for _, it := range c.items {
		it.made.Link(prev)
		prev = it.made.Hash
	}
}

func (c *chain) reply(i int) []byte {
	it := c.items[i]
	return ck.Reply(it.key, it.made.Enc, it.made.Text(), uint64(i))
}

func newUID(id, last, seed string) *uid.Message {
	m, err := uid.Create(id, false, "", "", uid.Strict, last, vk.NewRand("c10"+id+seed))
	must(err)
	return m
}

func update(m *uid.Message, seed string) *uid.Message {
	u, err := m.Update(vk.NewRand("c10up" + seed))
	must(err)
	return u
}

// the world
var (
	ks0, ks1, al0, al1, al2, bo0 *uid.Message
	k0, k1, mal                  ed25519.PrivateKey
	honest                       *chain // the chain of the server
	fork                         *chain // another one, with the same first entry
)

func world() {
	ks0 = newUID(ks, "", "")
	ks1 = update(ks0, "ks1")
	al0 = newUID(al, hashchain.TestEntry, "")
	al1 = update(al0, "al1")
	al2 = update(al1, "al2")
	bo0 = newUID(bo, hashchain.TestEntry, "")
	k0, k1 = ck.SigKey(ks0), ck.SigKey(ks1)
	mal = ck.SigKey(newUID("mallory@"+domain, hashchain.TestEntry, ""))
	honest = new(chain)
	honest.add(ks, ks0.JSON(), k0, "0").free = true
	honest.add(al, al0.JSON(), k0, "1")
	honest.add(bo, bo0.JSON(), k0, "2")
	honest.add(al, al1.JSON(), k0, "3")
	honest.add(ks, ks1.JSON(), k0, "4")
	honest.add(al, al2.JSON(), k1, "5")
	fork = new(chain)
	fork.add(ks, ks0.JSON(), k0, "0").free = true
	fork.add(bo, bo0.JSON(), k0, "f1")
	fork.add(al, al0.JSON(), k0, "f2")
	fork.add(bo, bo0.JSON(), k0, "f3")
	fork.add(al, al1.JSON(), k0, "f4")
}

// srv is the server of this process.
var srv *ck.Server

// serving is what it serves.
type serving struct {
	c     *chain
	n     int // entries
	alter func(method string, nth int, doc []byte) []byte
	calls map[string]int
	last  map[string][]byte // last result per method
}

func (s *serving) answer(method string, p map[string]interface{}) []byte {
	num := func(k string) int {
		n, _ := p[k].(json.Number)
		i, err := n.Int64()
		if err != nil {
			return -1
		}
		return int(i)
	}
	var doc []byte
	es := s.c.entries()[:s.n]
	switch method {
	case "KeyRepository.Capabilities":
		doc = js(map[string]interface{}{"CAPABILITIES": map[string]interface{}{"METHODS": ck.Methods, "DOMAINS": []string{domain}, "SIGPUBKEYS": []string{ks0.SigPubKey()}}})
	case "KeyHashchain.FetchLastHashChain":
		if s.n > 0 {
			doc = js(map[string]interface{}{"HCEntry": es[s.n-1], "HCPos": s.n - 1})
		}
	case "KeyHashchain.FetchHashChain":
		a, b := num("StartPosition"), num("EndPosition")
		if a >= 0 && a <= b && b < s.n {
			doc = js(map[string]interface{}{"HCEntries": es[a : b+1], "HCFirstPos": a})
		} else if a >= 0 && a < s.n {
			doc = js(map[string]interface{}{"HCEntries": es[a:], "HCFirstPos": a})
		}
	case "KeyHashchain.LookupUID":
		var ps []int
		id, _ := p["Identity"].(string)
		for i := 0; i < s.n; i++ {
			if _, ok := s.c.items[i].made.For(id); ok {
				ps = append(ps, i)
			}
		}
		if ps != nil {
			doc = js(map[string]interface{}{"HCPositions": ps})
		}
	case "KeyRepository.FetchUID":
		idx, _ := p["UIDIndex"].(string)
		for i := 0; i < s.n; i++ {
			if ck.B64(s.c.items[i].made.Index) == idx {
				doc = js(map[string]interface{}{"UIDMessageReply": json.RawMessage(s.c.reply(i))})
				break
			}
		}
	}
	n := s.calls[method]
	s.calls[method]++
	if s.alter != nil {
		doc = s.alter(method, n, doc)
	}
	s.last[method] = doc
	return doc
}

func serve(c *chain, n int, alter func(string, int, []byte) []byte) *serving {
	s := &serving{c: c, n: n, alter: alter, calls: make(map[string]int), last: make(map[string][]byte)}
	srv.Answer = s.answer
	srv.Raw = nil
	return s
}

// the engine of this process
var eng *ck.Engine

// run runs a command line on db; failed tells whether it reported an error.
func run(db *ck.DB, line string) (failed bool, out string, err error) {
	if eng == nil || eng.Dead() {
		eng = ck.Start()
	}
	eng.Use(db.KeyDB)
	st, out, err := eng.Run(line)
	r.Trans()
	return len(st) > 0, out, err
}

// stored reads the chain in the database.
func stored(db *ck.DB, dom string) ([]string, error) {
	max, found, err := db.GetLastHashChainPos(dom)
	if err != nil {
		return nil, err
	}
	if !found {
		return nil, nil
	}
	if max > 1000 {
		return nil, vk.Badf("positions", "an entry at position %d", max)
	}
	var s []string
	for i := uint64(0); i <= max; i++ {
		e, err := db.GetHashChainEntry(dom, i)
		if err != nil {
			return nil, vk.Badf("positions", "no entry at position %d of %d: %v", i, max, err)
		}
		s = append(s, e)
	}
	return s, nil
}

func pos(v interface{}) (int, bool) {
	f, ok := v.(float64)
	if !ok || f < 0 || f != math.Trunc(f) || f > 1<<53 {
		return 0, false
	}
	return int(f), true
}

// wanted is the reference for a synchronisation: what is to be stored
// afterwards, nil if the server's answers do not allow it; upTo is the longest
// chain that may be stored after a failure.
func wanted(old []string, last, fetch []byte) (want, upTo []string) {
	var l, f map[string]interface{}
	upTo = old
	if json.Unmarshal(last, &l) != nil || l == nil {
		return nil, old
	}
	_, ok := l["HCEntry"].(string)
	p, ok2 := pos(l["HCPos"])
	if !ok || !ok2 {
		return nil, old
	}
	if p < len(old) {
		return old, old
	}
	if json.Unmarshal(fetch, &f) != nil || f == nil {
		return nil, old
	}
	es, ok := f["HCEntries"].([]interface{})
	first, ok2 := pos(f["HCFirstPos"])
	if !ok || !ok2 || first > len(old) {
		return nil, old
	}
	want = append([]string(nil), old...)
	for i := len(old); i <= p; i++ {
		if i-first >= len(es) {
			return nil, want
		}
		e, ok := es[i-first].(string)
		if !ok {
			return nil, want
		}
		want = append(want, e)
	}
	return want, want
}

func eq(a, b []string) bool { return strings.Join(a, "\n") == strings.Join(b, "\n") }

// sync runs a synchronisation and judges it.
func sync(db *ck.DB, old []string, s *serving, honest bool) ([]string, error) {
	failed, _, err := run(db, "hashchain sync --domain "+domain)
	if err != nil {
		return nil, err
	}
	got, err := stored(db, domain)
	if err != nil {
		return nil, err
	}
	want, upTo := wanted(old, s.last["KeyHashchain.FetchLastHashChain"], s.last["KeyHashchain.FetchHashChain"])
	if len(got) < len(old) || !eq(got[:len(old)], old) {
		return nil, vk.Badf("sync", "stored entries change: %q, then %q", old, got)
	}
	if failed {
		if honest {
			return nil, vk.Badf("sync", "fails with an honest server")
		}
		if len(got) > len(upTo) || !eq(got, upTo[:len(got)]) {
			return nil, vk.Badf("sync", "fails and stores %q, may be up to %q", got, upTo)
		}
		r.Outcome("sync fails")
		return got, nil
	}
	if want == nil {
		return nil, vk.Badf("sync", "succeeds with incomplete answers, stores %q", got)
	}
	if !eq(got, want) {
		return nil, vk.Badf("sync", "stores %q, want %q", got, want)
	}
	r.Outcome("sync succeeds")
	return got, nil
}

// valid is the reference for validation.
func valid(es []string, own map[int]string) bool {
	if len(es) == 0 {
		return false
	}
	var prev []byte
	for _, t := range es {
		e, ok := ck.Parse(t)
		if !ok {
			return false
		}
		h := append([]byte(nil), e.Hash...)
		e.Link(prev)
		if !bytes.Equal(h, e.Hash) {
			return false
		}
		prev = h
	}
	for p, t := range own {
		if p < len(es) && es[p] != t {
			return false
		}
	}
	return true
}

func validate(db *ck.DB, es []string, own map[int]string) error {
	failed, _, err := run(db, "hashchain validate --domain "+domain)
	if err != nil {
		return err
	}
	if failed == valid(es, own) {
		return vk.Badf("validation", "valid: %v, accepted: %v: %q", !failed, valid(es, own), es)
	}
	r.Outcome(fmt.Sprintf("validates: %v", !failed))
	return nil
}

var empty *ck.Template

func with(es []string) *ck.Template {
	return empty.With(func(db *ck.DB) {
		for i, e := range es {
			must(db.AddHashChainEntry(domain, uint64(i), e))
		}
	})
}

// syncs alters the answers of the server in every element.
func syncs() {
	type job struct {
		k, n   int
		method string
		mu     jsonmut.Mut
	}
	es := honest.entries()
	var jobs []job
	var t [4]*ck.Template
	for k := 0; k <= 3; k++ {
		t[k] = with(es[:k])
		for n := k; n <= k+r.Pick(2, 3) && n <= len(es); n++ {
			if n == 0 {
				continue
			}
			last := js(map[string]interface{}{"HCEntry": es[n-1], "HCPos": n - 1})
			for _, mu := range jsonmut.All(last, false) {
				if strings.HasPrefix(mu.Path, ".HCEntry") && strings.HasPrefix(mu.What, "char ") && !r.Thorough() {
					continue
				}
				jobs = append(jobs, job{k, n, "KeyHashchain.FetchLastHashChain", mu})
			}
			if n > k {
				fetch := js(map[string]interface{}{"HCEntries": es[k:n], "HCFirstPos": k})
				for _, mu := range jsonmut.All(fetch, false) {
					if strings.Contains(mu.Path, ".HCEntries.") && strings.HasPrefix(mu.What, "char ") && !(r.Thorough() || strings.HasPrefix(mu.What, "char 7")) {
						continue
					}
					jobs = append(jobs, job{k, n, "KeyHashchain.FetchHashChain", mu})
				}
			}
		}
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		do(fmt.Sprintf("sync %d of %d: %s %s %s", j.k, j.n, j.method, j.mu.Path, j.mu.What), func() error {
			db := t[j.k].Open()
			defer db.Drop()
			s := serve(honest, j.n, func(m string, nth int, doc []byte) []byte {
				if m == j.method {
					return j.mu.Doc
				}
				return doc
			})
			got, err := sync(db, es[:j.k], s, false)
			if err != nil {
				return err
			}
			if len(got) > 0 {
				if err := validate(db, got, nil); err != nil {
					return err
				}
			}
			// an honest server then completes whatever was stored
			if eq(got, es[:len(got)]) {
				s = serve(honest, 6, nil)
				got, err := sync(db, got, s, true)
				if err != nil {
					return err
				}
				if !eq(got, es) {
					return vk.Badf("sync", "does not complete the chain after a failure: %q", got)
				}
			}
			return nil
		})
	})
}

// histories of synchronisations with a growing, lying and changing server.
type model struct {
	stored []string
	n      int
	fork   bool
}

func (m *model) Key() string {
	return fmt.Sprint(m.n, m.fork, strings.Join(m.stored, ","))
}

type system struct{ db *ck.DB }

func (s *system) Close() { s.db.Drop() }

func (m *model) chain() *chain {
	if m.fork {
		return fork
	}
	return honest
}

func histories() {
	lie := func(name string, f func(method string, doc map[string]interface{})) vk.Op {
		return vk.Op{Name: "sync with " + name, Do: func(s vk.Sys, m vk.Model) error {
			S, M := s.(*system), m.(*model)
			sv := serve(M.chain(), M.n, func(method string, nth int, doc []byte) []byte {
				if doc == nil {
					return nil
				}
				v, _ := jsonmut.Parse(doc).(map[string]interface{})
				f(method, v)
				return js(v)
			})
			got, err := sync(S.db, M.stored, sv, false)
			M.stored = got
			return err
		}}
	}
	list := func(name string, f func([]interface{}) []interface{}) vk.Op {
		return lie(name, func(method string, v map[string]interface{}) {
			if l, ok := v["HCEntries"].([]interface{}); ok && len(l) > 0 {
				v["HCEntries"] = f(l)
			}
		})
	}
	shift := func(d int64) func(string, map[string]interface{}) {
		return func(method string, v map[string]interface{}) {
			if n, ok := v["HCFirstPos"].(json.Number); ok {
				i, _ := n.Int64()
				v["HCFirstPos"] = i + d
			}
		}
	}
	last := func(d int64) func(string, map[string]interface{}) {
		return func(method string, v map[string]interface{}) {
			if n, ok := v["HCPos"].(json.Number); ok {
				i, _ := n.Int64()
				v["HCPos"] = i + d
			}
		}
	}
	ops := []vk.Op{
		{Name: "the chain grows", Enabled: func(m vk.Model) bool { return m.(*model).n < len(m.(*model).chain().items) },
			Do: func(s vk.Sys, m vk.Model) error { m.(*model).n++; return nil }},
		{Name: "another chain", Do: func(s vk.Sys, m vk.Model) error {
			M := m.(*model)
			M.fork = !M.fork
			if M.n > len(M.chain().items) {
				M.n = len(M.chain().items)
			}
			return nil
		}},
		{Name: "sync", Do: func(s vk.Sys, m vk.Model) error {
			S, M := s.(*system), m.(*model)
			got, err := sync(S.db, M.stored, serve(M.chain(), M.n, nil), true)
			M.stored = got
			return err
		}},
		{Name: "delete", Do: func(s vk.Sys, m vk.Model) error {
			S, M := s.(*system), m.(*model)
			failed, _, err := run(S.db, "hashchain delete --domain "+domain)
			if err != nil {
				return err
			}
			if failed && len(M.stored) > 0 {
				return vk.Badf("delete", "fails")
			}
			M.stored = nil
			return nil
		}},
		lie("last position one less", last(-1)),
		lie("last position one more", last(1)),
		lie("first position one less", shift(-1)),
		lie("first position one more", shift(1)),
		list("the last entry missing", func(l []interface{}) []interface{} { return l[:len(l)-1] }),
		list("the first entry missing", func(l []interface{}) []interface{} { return l[1:] }),
		list("the first entry twice", func(l []interface{}) []interface{} { return append([]interface{}{l[0]}, l...) }),
		list("reversed entries", func(l []interface{}) []interface{} {
			var o []interface{}
			for i := range l {
				o = append(o, l[len(l)-1-i])
			}
			return o
		}),
		list("no entry at the end", func(l []interface{}) []interface{} { return append(l[:len(l)-1:len(l)-1], nil) }),
		list("an entry more", func(l []interface{}) []interface{} { return append(l, "x") }),
		list("a broken link", func(l []interface{}) []interface{} {
			b, _ := ck.Raw64(l[0].(string))
			b[60] ^= 1
			o := append([]interface{}(nil), l...)
			o[0] = ck.B64(b)
			return o
		}),
	}
	l := &vk.Lockstep{Name: "histories", Ops: ops, Depth: r.Pick(4, 6), Merge: true,
		New: func() (vk.Sys, vk.Model, error) {
			return &system{empty.Open()}, &model{n: 1}, nil
		},
		Check: func(s vk.Sys, m vk.Model) error {
			S, M := s.(*system), m.(*model)
			got, err := stored(S.db, domain)
			if err != nil {
				return err
			}
			if !eq(got, M.stored) {
				return vk.Badf("stored", "%q, want %q", got, M.stored)
			}
			failed, out, err := run(S.db, "hashchain show --domain "+domain)
			if err != nil {
				return err
			}
			if failed != (len(got) == 0) || !failed && out != strings.Join(got, "\n")+"\n" {
				return vk.Badf("show", "%q, want %q", out, got)
			}
			if o, err := stored(S.db, "example.com"); err != nil || o != nil {
				return vk.Badf("stored", "entries of another domain")
			}
			return validate(S.db, M.stored, nil)
		}}
	l.Explore(r)
}

// variants of an entry at a position, some not linked.
func variants(c *chain, i int) map[string]string {
	es := c.entries()
	it := c.items[i].made
	var prev []byte
	if i > 0 {
		prev = c.items[i-1].made.Hash
	}
	out := map[string]string{"": es[i]}
	for _, f := range []struct {
		n string
		f func(e *ck.Entry) *[]byte
	}{{"hash", func(e *ck.Entry) *[]byte { return &e.Hash }}, {"nonce", func(e *ck.Entry) *[]byte { return &e.Nonce }},
		{"id", func(e *ck.Entry) *[]byte { return &e.HashID }}, {"uid", func(e *ck.Entry) *[]byte { return &e.CrUID }},
		{"index", func(e *ck.Entry) *[]byte { return &e.Index }}, {"type", func(e *ck.Entry) *[]byte { return &e.Type }}} {
		e := it.Entry
		p := f.f(&e)
		*p = append([]byte(nil), *p...)
		(*p)[len(*p)-1] ^= 2
		out["altered "+f.n] = e.Text()
		if f.n != "hash" {
			e.Link(prev)
			out["other "+f.n] = e.Text()
		}
	}
	e := it.Entry
	e.Link(bytes.Repeat([]byte{1}, 32))
	out["other link"] = e.Text()
	e.Link(nil)
	out["first link"] = e.Text()
	out["empty"] = ""
	out["no base64"] = "?"
	b, _ := ck.Raw64(es[i])
	out["short"] = ck.B64(b[:152])
	out["long"] = ck.B64(append(b, 0))
	out["newline"] = es[i] + "\n"
	if i > 0 {
		out["the one before"] = es[i-1]
	}
	if i+1 < len(es) {
		out["the one after"] = es[i+1]
	}
	return out
}

func keys(m map[string]string) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
	return s
}

// validations validates all chains made of variants.
func validations() {
	n := r.Pick(2, 3)
	var vs []map[string]string
	var ns [][]string
	total := 1
	for i := 0; i < n; i++ {
		vs = append(vs, variants(honest, i))
		ns = append(ns, keys(vs[i]))
		total *= len(ns[i])
	}
	check := func(desc string, es []string, from int) {
		do("validate "+desc, func() error {
			db := empty.Open()
			defer db.Drop()
			for i, e := range es {
				must(db.AddHashChainEntry(domain, uint64(i+from), e))
			}
			if from > 0 {
				failed, _, err := run(db, "hashchain validate --domain "+domain)
				if err == nil && !failed {
					return vk.Badf("validation", "a chain without its first entry is accepted")
				}
				return err
			}
			return validate(db, es, nil)
		})
	}
	r.Parallel(total, func(i int) {
		var es, d []string
		for k, x := 0, i; k < n; k++ {
			name := ns[k][x%len(ns[k])]
			x /= len(ns[k])
			es, d = append(es, vs[k][name]), append(d, name)
		}
		check(fmt.Sprintf("%q", d), es, 0)
	})
	// single variants and bytes in a longer chain
	all := honest.entries()
	type job struct {
		desc string
		i    int
		e    string
	}
	var jobs []job
	for i := range all {
		for _, v := range keys(variants(honest, i)) {
			jobs = append(jobs, job{v, i, variants(honest, i)[v]})
		}
		for b := 0; b < 153; b++ {
			for _, x := range []byte{1, 0x80} {
				if !r.Thorough() && x == 0x80 && b%4 != 0 {
					continue
				}
				c, _ := ck.Raw64(all[i])
				c[b] ^= x
				jobs = append(jobs, job{fmt.Sprintf("byte %d %#x", b, x), i, ck.B64(c)})
			}
		}
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		es := append([]string(nil), all...)
		es[j.i] = j.e
		check(fmt.Sprintf("entry %d of %d %s", j.i, len(all), j.desc), es, 0)
	})
	// orders, omissions, repetitions
	var seqs [][]string
	var names []string
	vk.Sequences(4, 3, func(s []int) {
		var es []string
		for _, x := range s {
			es = append(es, all[x])
		}
		seqs, names = append(seqs, es), append(names, fmt.Sprint(s))
	})
	r.Parallel(len(seqs), func(i int) {
		check("order "+names[i], seqs[i], 0)
		check("late order "+names[i], seqs[i], 1)
	})
	// own entries
	for p := 0; p < 5; p++ {
		for _, e := range []int{0, 1, 2, 3} {
			do(fmt.Sprintf("own message at %d recorded as %d", p, e), func() error {
				db := empty.Open()
				defer db.Drop()
				es := all[:4]
				for i, e := range es {
					must(db.AddHashChainEntry(domain, uint64(i), e))
				}
				must(db.AddPrivateUID(al0))
				rep, err := uid.NewJSONReply(string(ck.Reply(k0, honest.items[1].made.Enc, all[e], uint64(p))))
				must(err)
				must(db.AddPrivateUIDReply(al0, rep))
				return validate(db, es, map[int]string{p: all[e]})
			})
		}
	}
	do("another domain's own message", func() error {
		db := empty.Open()
		defer db.Drop()
		for i, e := range all[:3] {
			must(db.AddHashChainEntry(domain, uint64(i), e))
		}
		m := newUID("alice@example.com", hashchain.TestEntry, "")
		must(db.AddPrivateUID(m))
		rep, err := uid.NewJSONReply(string(ck.Reply(k0, honest.items[1].made.Enc, "x", 1)))
		must(err)
		must(db.AddPrivateUIDReply(m, rep))
		return validate(db, all[:3], nil)
	})
}

// taken reads the identity messages of id in the database by position.
func taken(db *ck.DB, id string) (map[int]string, error) {
	out := make(map[int]string)
	for p := uint64(math.MaxInt64); ; {
		m, at, found, err := db.GetPublicUID(id, p)
		if err != nil {
			return nil, err
		}
		if !found {
			return out, nil
		}
		out[int(at)] = string(m.JSON())
		if at == 0 {
			return out, nil
		}
		p = at - 1
	}
}

// acceptable is the reference for an entry: may the answer doc to the request
// for item i be taken over, given the signature keys known?
func acceptable(c *chain, i int, good bool, doc []byte, known map[int]string) bool {
	it := c.items[i]
	if !good {
		return false
	}
	// names are case-sensitive
	var v map[string]interface{}
	if json.Unmarshal(doc, &v) != nil {
		return false
	}
	rep, _ := v["UIDMessageReply"].(map[string]interface{})
	e, _ := rep["ENTRY"].(map[string]interface{})
	enc, ok1 := e["UIDMESSAGEENCRYPTED"].(string)
	entry, ok2 := e["HASHCHAINENTRY"].(string)
	p, ok3 := pos(e["HASHCHAINPOS"])
	srvSig, ok4 := rep["SERVERSIGNATURE"].(string)
	if !ok1 || !ok2 || !ok3 || !ok4 {
		return false
	}
	key, mine := it.made.For(it.id)
	if !mine {
		return false
	}
	hash := it.made.UIDHash(key)
	idx, text, ok := ck.Decrypt(hash, enc)
	if !ok || !bytes.Equal(idx, it.made.Index) || !bytes.Equal(text, it.text) {
		return false
	}
	if it.free {
		return true
	}
	// the server's key at this position
	best := -1
	for q := range known {
		if q <= i && q > best {
			best = q
		}
	}
	if best < 0 {
		return false
	}
	m, err := uid.NewJSON(known[best])
	must(err)
	k, _ := ck.Raw64(m.SigPubKey())
	s, ok := ck.Raw64(srvSig)
	return ok && len(k) == 32 && ed25519.Verify(k, ck.EntryText(enc, entry, uint64(p)), s)
}

// find runs a search or lookup of id and judges what is taken over. good
// tells which items have proper messages; order lists the positions to be
// asked for.
func find(db *ck.DB, s *serving, cmd, id string, order []int, good func(i int) bool, answers func(i int) []byte) error {
	known, err := taken(db, ks)
	if err != nil {
		return err
	}
	ids := []string{ks, al, bo, "mallory@" + domain, "alice@example.com"}
	was := make(map[string]map[int]string)
	for _, o := range append(ids, id) {
		if was[o], err = taken(db, o); err != nil {
			return err
		}
	}
	before := was[id]
	failed, _, err := run(db, "hashchain "+cmd+" --id "+id)
	if err != nil {
		return err
	}
	after, err := taken(db, id)
	if err != nil {
		return err
	}
	for _, o := range ids {
		if o == id {
			continue
		}
		t, err := taken(db, o)
		if err != nil {
			return err
		}
		if fmt.Sprint(t) != fmt.Sprint(was[o]) {
			return vk.Badf("foreign identity", "looking for %s changes the messages of %s", id, o)
		}
	}
	for p, t := range before {
		if after[p] != t {
			return vk.Badf("changed", "the stored message at %d changes", p)
		}
	}
	var ps []int
	for p := range after {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	all := known
	if id == ks {
		all = make(map[int]string)
	}
	for _, p := range ps {
		t := after[p]
		if _, ok := before[p]; !ok {
			if p >= len(s.c.items) || s.c.items[p].id != id || string(s.c.items[p].text) != t || !acceptable(s.c, p, good(p), answers(p), all) {
				return vk.Badf("taken over", "message at %d of %s: %s", p, id, t)
			}
		}
		if id == ks {
			all[p] = t
		}
	}
	want := len(order) > 0
	for _, p := range order {
		if _, ok := before[p]; ok {
			continue
		}
		kk := known
		if id == ks {
			kk = make(map[int]string)
			for q, t := range after {
				if q < p {
					kk[q] = t
				}
			}
		}
		if !acceptable(s.c, p, good(p), answers(p), kk) {
			want = false
			break
		}
		if _, ok := after[p]; !ok {
			return vk.Badf("left out", "message at %d of %s is not taken over", p, id)
		}
	}
	if failed == want {
		return vk.Badf("verdict", "%s of %s: success %v, want %v", cmd, id, !failed, want)
	}
	r.Outcome(fmt.Sprintf("%s succeeds: %v", cmd, !failed))
	return nil
}

func positions(c *chain, id string) (ps []int) {
	for i, it := range c.items {
		if _, ok := it.made.For(id); ok {
			ps = append(ps, i)
		}
	}
	return
}

func all(int) bool { return true }

// searches looks for identities with altered answers.
func searches() {
	full := with(honest.entries())
	known := full.With(func(db *ck.DB) {
		must(db.AddPublicUID(ks0, 0))
		must(db.AddPublicUID(ks1, 4))
	})
	honestAnswer := func(c *chain) func(int) []byte {
		return func(i int) []byte {
			return js(map[string]interface{}{"UIDMessageReply": json.RawMessage(c.reply(i))})
		}
	}
	for _, cmd := range []string{"search", "lookup"} {
		cmd := cmd
		do(cmd+" in order", func() error {
			db := full.Open()
			defer db.Drop()
			s := serve(honest, 6, nil)
			// before the server's key is known
			if err := find(db, s, cmd, al, positions(honest, al), all, honestAnswer(honest)); err != nil {
				return err
			}
			for _, id := range []string{ks, al, bo, al, ks} {
				if err := find(db, s, cmd, id, positions(honest, id), all, honestAnswer(honest)); err != nil {
					return err
				}
			}
			for _, id := range []string{"mallory@" + domain, "alic@" + domain} {
				if err := find(db, s, cmd, id, nil, all, honestAnswer(honest)); err != nil {
					return err
				}
			}
			r.Trace()
			return nil
		})
		// growing chain, asked at every length
		do(cmd+" while growing", func() error {
			db := empty.Open()
			defer db.Drop()
			var have []string
			for n := 1; n <= 6; n++ {
				s := serve(honest, n, nil)
				var err error
				if have, err = sync(db, have, s, true); err != nil {
					return err
				}
				for _, id := range []string{ks, al, bo} {
					var ps []int
					for _, p := range positions(honest, id) {
						if p < n {
							ps = append(ps, p)
						}
					}
					if err := find(db, s, cmd, id, ps, all, honestAnswer(honest)); err != nil {
						return err
					}
				}
			}
			r.Trace()
			return nil
		})
		// every assignment of signature keys to alice's replies
		ks3 := []ed25519.PrivateKey{k0, k1, mal}
		r.Parallel(27, func(x int) {
			c := &chain{}
			for _, it := range honest.items {
				i := *it
				c.items = append(c.items, &i)
			}
			for j, p := range []int{1, 3, 5} {
				c.items[p].key = ks3[x/[]int{1, 3, 9}[j]%3]
			}
			do(fmt.Sprintf("%s keys %d", cmd, x), func() error {
				db := known.Open()
				defer db.Drop()
				if err := find(db, serve(c, 6, nil), cmd, al, positions(c, al), all, honestAnswer(c)); err != nil {
					return err
				}
				// and again with the right ones
				return find(db, serve(honest, 6, nil), cmd, al, positions(honest, al), all, honestAnswer(honest))
			})
		})
		// every signature key for the reply with the server's own second message
		for j, key := range ks3 {
			c := &chain{}
			for _, it := range honest.items {
				i := *it
				c.items = append(c.items, &i)
			}
			c.items[4].key = key
			do(fmt.Sprintf("%s of the key server, key %d", cmd, j), func() error {
				db := full.Open()
				defer db.Drop()
				if err := find(db, serve(c, 6, nil), cmd, ks, positions(c, ks), all, honestAnswer(c)); err != nil {
					return err
				}
				return find(db, serve(honest, 6, nil), cmd, ks, positions(honest, ks), all, honestAnswer(honest))
			})
		}
		// replies signed by the server which name another place in the chain
		r.Parallel(3*8, func(x int) {
			nth, v := x%3, x/3
			p := []int{1, 3, 5}[nth]
			it := honest.items[p]
			at := []uint64{0, uint64(p) - 1, uint64(p) + 1, 2, 5, 6, 1 << 40, math.MaxInt64}[v]
			for _, entry := range []string{it.made.Text(), honest.items[(p+1)%6].made.Text(), ""} {
				doc := js(map[string]interface{}{"UIDMessageReply": json.RawMessage(ck.Reply(it.key, it.made.Enc, entry, at))})
				do(fmt.Sprintf("%s: the reply for %d names position %d and entry %.8s", cmd, p, at, entry), func() error {
					db := known.Open()
					defer db.Drop()
					serve(honest, 6, func(m string, n int, d []byte) []byte {
						if m == "KeyRepository.FetchUID" && n == nth {
							return doc
						}
						return d
					})
					failed, _, err := run(db, "hashchain "+cmd+" --id "+al)
					if err != nil {
						return err
					}
					t, err := taken(db, al)
					if err != nil {
						return err
					}
					for q, text := range t {
						if q >= 6 || honest.items[q].id != al || string(honest.items[q].text) != text {
							return vk.Badf("misplaced", "a message of %s is stored at %d", al, q)
						}
					}
					if !failed && len(t) != 3 {
						return vk.Badf("verdict", "a %s succeeds with %d messages", cmd, len(t))
					}
					return find(db, serve(honest, 6, nil), cmd, al, positions(honest, al), all, honestAnswer(honest))
				})
			}
		})
		// altered replies
		for nth, p := range []int{1, 3, 5} {
			nth, p := nth, p
			doc := honestAnswer(honest)(p)
			muts := jsonmut.All(doc, false)
			for q := range honest.items {
				muts = append(muts, jsonmut.Mut{"", fmt.Sprintf("reply of %d", q), honestAnswer(honest)(q)})
			}
			r.Parallel(len(muts), func(i int) {
				mu := muts[i]
				if !r.Thorough() && strings.HasPrefix(mu.What, "char ") && (i+nth)%6 != 0 {
					return
				}
				do(fmt.Sprintf("%s reply %d %s %s", cmd, p, mu.Path, mu.What), func() error {
					db := known.Open()
					defer db.Drop()
					s := serve(honest, 6, func(m string, n int, d []byte) []byte {
						if m == "KeyRepository.FetchUID" && n == nth {
							return mu.Doc
						}
						return d
					})
					return find(db, s, cmd, al, positions(honest, al), all, func(i int) []byte {
						if i == p {
							return mu.Doc
						}
						return honestAnswer(honest)(i)
					})
				})
			})
		}
	}
	// lists of positions a lookup returns
	vals := []string{"0", "1", "2", "3", "5", "6", "-1", "1.5", "1e0", "18446744073709551615", `"1"`, "null", "[]", "{}", "true"}
	var lists []string
	for n := 0; n <= r.Pick(2, 3); n++ {
		vk.Sequences(len(vals), n, func(s []int) {
			var l []string
			for _, x := range s {
				l = append(l, vals[x])
			}
			lists = append(lists, "["+strings.Join(l, ",")+"]")
		})
	}
	lists = append(lists, "null", "1", `"x"`, "{}", "true")
	r.Parallel(len(lists), func(i int) {
		do("lookup positions "+lists[i], func() error {
			db := known.Open()
			defer db.Drop()
			s := serve(honest, 6, func(m string, n int, d []byte) []byte {
				if m == "KeyHashchain.LookupUID" {
					return []byte(`{"HCPositions":` + lists[i] + `}`)
				}
				return d
			})
			var l []interface{}
			json.Unmarshal([]byte(lists[i]), &l)
			var order []int
			bad := false
			for _, x := range l {
				p, ok := pos(x)
				if !ok || p >= 6 || honest.items[p].id != al {
					bad = true
					break
				}
				order = append(order, p)
			}
			if bad {
				failed, _, err := run(db, "hashchain lookup --id "+al)
				if err != nil {
					return err
				}
				if !failed {
					return vk.Badf("verdict", "a lookup with positions %s succeeds", lists[i])
				}
				t, err := taken(db, al)
				if err != nil {
					return err
				}
				for p, x := range t {
					if p >= 6 || honest.items[p].id != al || string(honest.items[p].text) != x {
						return vk.Badf("taken over", "message at %d", p)
					}
				}
				return nil
			}
			return find(db, s, "lookup", al, order, all, honestAnswer(honest))
		})
	})
}

// hostile serves messages for alice that are wrong in one respect.
func hostile() {
	type bad struct {
		name string
		text []byte
		good bool
		f    func(it *item)
	}
	root := jsonmut.Parse(al0.JSON())
	sign := func(v interface{}, k ed25519.PrivateKey) []byte {
		content := jsonmut.Text(jsonmut.Get(v, ".UIDContent"))
		return jsonmut.Text(jsonmut.Set(v, ".SELFSIGNATURE", ck.B64(ed25519.Sign(k, content))))
	}
	ka := ck.SigKey(al0)
	set := func(path string, x interface{}) []byte {
		return sign(jsonmut.Set(root, ".UIDContent."+path, x), ka)
	}
	other := newUID("alice@example.com", hashchain.TestEntry, "")
	list := []bad{
		{"proper", al0.JSON(), true, nil},
		{"another identity's", bo0.JSON(), false, nil},
		{"another domain's", other.JSON(), false, nil},
		{"the key server's", ks0.JSON(), false, nil},
		{"identity in upper case", set("IDENTITY", "Alice@mute.one"), false, nil},
		{"no identity", set("IDENTITY", ""), false, nil},
		{"version", set("VERSION", "2.0"), false, nil},
		{"optional", set("PREFERENCES.FORWARDSEC", "optional"), false, nil},
		{"no keys", set("PUBKEYS", []interface{}{}), false, nil},
		{"null keys", set("PUBKEYS", nil), false, nil},
		{"null key", set("PUBKEYS.0", nil), false, nil},
		{"short key", set("PUBKEYS.0.PUBKEY", "AAAA"), false, nil},
		{"wrong key hash", set("PUBKEYS.0.HASH", al0.UIDContent.SIGKEY.HASH), false, nil},
		{"no signature key", set("SIGKEY", nil), false, nil},
		{"short signature key", set("SIGKEY.PUBKEY", "AAAA"), false, nil},
		{"other signature key", set("SIGKEY", jsonmut.Get(jsonmut.Parse(bo0.JSON()), ".UIDContent.SIGKEY")), false, nil},
		{"no last entry", set("LASTENTRY", ""), false, nil},
		{"repository", set("REPOURIS", []interface{}{"example.com"}), false, nil},
		{"no self-signature", jsonmut.Text(jsonmut.Set(root, ".SELFSIGNATURE", "")), false, nil},
		{"foreign self-signature", jsonmut.Text(jsonmut.Set(root, ".SELFSIGNATURE", bo0.SELFSIGNATURE)), false, nil},
		{"self-signature of another key", sign(root, mal), false, nil},
		{"altered after signing", jsonmut.Text(jsonmut.Set(root, ".UIDContent.NOTAFTER", json.Number("99999999999"))), false, nil},
		{"nothing", nil, false, nil},
		{"empty object", []byte("{}"), false, nil},
		{"null", []byte("null"), false, nil},
		{"list", []byte("[]"), false, nil},
		{"cut", al0.JSON()[:200], false, nil},
		{"no text", []byte("\xff\xfe\x00"), false, nil},
		{"other index", al0.JSON(), false, func(it *item) { it.made.Index = bytes.Repeat([]byte{3}, 32) }},
		{"other hash", al0.JSON(), false, func(it *item) { it.made.CrUID = bytes.Repeat([]byte{3}, 48) }},
		{"hash of another message", al0.JSON(), false, func(it *item) {
			it.made.CrUID = ck.Make(al, bo0.JSON(), "x").CrUID
		}},
		{"text of another message", al0.JSON(), false, func(it *item) { it.made.Enc = ck.Make(al, al1.JSON(), "x").Enc }},
		{"text without message", al0.JSON(), false, func(it *item) {
			b, _ := ck.Raw64(it.made.Enc)
			it.made.Enc = ck.B64(b[:48])
		}},
		{"index only", al0.JSON(), false, func(it *item) {
			b, _ := ck.Raw64(it.made.Enc)
			it.made.Enc = ck.B64(b[:32])
		}},
		{"empty text", al0.JSON(), false, func(it *item) { it.made.Enc = "" }},
	}
	ks3 := []ed25519.PrivateKey{k0, k1, mal, ka}
	r.Parallel(len(list)*len(ks3)*2*2, func(x int) {
		b := list[x/16]
		key := ks3[x/4%4]
		cmd := []string{"search", "lookup"}[x/2%2]
		after := x%2 == 1 // a proper message before the hostile one
		do(fmt.Sprintf("hostile %s key %d %s after=%v", b.name, x/4%4, cmd, after), func() error {
			c := new(chain)
			c.add(ks, ks0.JSON(), k0, "0").free = true
			if after {
				c.add(al, al1.JSON(), k0, "proper")
			}
			it := c.add(al, b.text, key, "h"+b.name)
			if b.f != nil {
				b.f(it)
				c.link()
			}
			h := len(c.items) - 1
			db := with(c.entries()).Open()
			defer db.Drop()
			must(db.AddPublicUID(ks0, 0))
			return find(db, serve(c, h+1, nil), cmd, al, positions(c, al), func(i int) bool { return i < h || b.good }, func(i int) []byte {
				return js(map[string]interface{}{"UIDMessageReply": json.RawMessage(c.reply(i))})
			})
		})
	})
}

// rubbish lets every method answer with anything; nothing may crash or change.
func rubbish() {
	known := with(honest.entries()[:3]).With(func(db *ck.DB) {
		must(db.AddPublicUID(ks0, 0))
	})
	caps := js(map[string]interface{}{"CAPABILITIES": map[string]interface{}{"METHODS": ck.Methods, "SIGPUBKEYS": []string{ks0.SigPubKey()}}})
	cmds := []string{"hashchain sync --domain " + domain, "hashchain lookup --id " + al, "hashchain search --id " + al, "caps get --domain " + domain}
	type job struct {
		cmd, method, what string
		doc               []byte
		raw               func(w http.ResponseWriter, id string)
	}
	var jobs []job
	methods := ck.Methods[:5]
	for _, c := range cmds {
		for _, mu := range jsonmut.All(caps, false) {
			if strings.HasPrefix(mu.What, "char ") && !r.Thorough() {
				continue
			}
			jobs = append(jobs, job{c, methods[0], mu.Path + " " + mu.What, mu.Doc, nil})
		}
		for _, m := range methods {
			for _, d := range []string{"null", "{}", "[]", "7", `"x"`, "true", "[[]]", `{"":{}}`} {
				jobs = append(jobs, job{c, m, "result " + d, []byte(d), nil})
			}
			for name, f := range map[string]func(w http.ResponseWriter, id string){
				"nothing":           func(w http.ResponseWriter, id string) {},
				"status 500":        func(w http.ResponseWriter, id string) { http.Error(w, "x", 500) },
				"status 404 object": func(w http.ResponseWriter, id string) { w.WriteHeader(404); w.Write([]byte("{}")) },
				"no JSON":           func(w http.ResponseWriter, id string) { w.Write([]byte("<html>")) },
				"list":              func(w http.ResponseWriter, id string) { w.Write([]byte("[]")) },
				"null":              func(w http.ResponseWriter, id string) { w.Write([]byte("null")) },
				"no result":         func(w http.ResponseWriter, id string) { w.Write([]byte(`{"jsonrpc":"2.0","id":` + id + `}`)) },
				"error text": func(w http.ResponseWriter, id string) {
					w.Write([]byte(`{"jsonrpc":"2.0","error":"x","id":` + id + `}`))
				},
				"error null": func(w http.ResponseWriter, id string) {
					w.Write([]byte(`{"jsonrpc":"2.0","error":null,"id":` + id + `}`))
				},
				"error and result": func(w http.ResponseWriter, id string) {
					w.Write([]byte(`{"jsonrpc":"2.0","result":{},"error":{"code":1,"message":"x"},"id":` + id + `}`))
				},
				"version 1": func(w http.ResponseWriter, id string) {
					w.Write([]byte(`{"jsonrpc":"1.0","result":{},"id":` + id + `}`))
				},
				"closed": func(w http.ResponseWriter, id string) {
					c, _, err := w.(http.Hijacker).Hijack()
					must(err)
					c.Close()
				},
				"cut": func(w http.ResponseWriter, id string) {
					w.Header().Set("Content-Length", "1000")
					w.Write([]byte(`{"jsonrpc":"2.0","result":{`))
				},
				"redirect loop": func(w http.ResponseWriter, id string) { w.Header().Set("Location", "/"); w.WriteHeader(302) },
			} {
				jobs = append(jobs, job{c, m, name, nil, f})
			}
		}
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		do(fmt.Sprintf("%s: %s %s", j.cmd, j.method, j.what), func() error {
			db := known.Open()
			defer db.Drop()
			s := serve(honest, 3, func(m string, n int, d []byte) []byte {
				if m == j.method && j.doc != nil {
					return j.doc
				}
				return d
			})
			if j.raw != nil {
				srv.Raw = func(w http.ResponseWriter, m, id string) bool {
					if m == j.method {
						j.raw(w, id)
						return true
					}
					return false
				}
			}
			failed, _, err := run(db, j.cmd)
			if err != nil {
				return err
			}
			if j.raw != nil && !failed && s.calls[j.method] == 0 && strings.HasPrefix(j.cmd, "hashchain sync") && (j.method == methods[0] || j.method == methods[1]) {
				return vk.Badf("verdict", "succeeds although %s answers %s", j.method, j.what)
			}
			es, err := stored(db, domain)
			if err != nil {
				return err
			}
			if !eq(es, honest.entries()[:3]) {
				return vk.Badf("stored", "the chain changes")
			}
			t, err := taken(db, al)
			if err != nil {
				return err
			}
			for p, x := range t {
				if p != 1 || x != string(al0.JSON()) {
					return vk.Badf("taken over", "message at %d", p)
				}
			}
			return nil
		})
	})
}

func main() {
	r = vk.Start("C10")
	r.Fork()
	clock.Freeze(1500000000)
	r.Assume("SHA-256, SHA-512, AES and Ed25519 are not broken")
	world()
	srv = ck.Serve(domain)
	empty = ck.Empty()
	rubbish()
	histories()
	hostile()
	searches()
	syncs()
	validations()
	if r.Expired() {
		r.Cap("deadline")
	}
	r.Done()
}
