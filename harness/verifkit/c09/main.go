// C09: everything recorded for one of the user's identities stays with it,
// compared with a reference model on all sequences of operations.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/mutecomm/mute/msgdb"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/mdb"
	_ "github.com/mutecomm/mute/verifkit/quickdb"
)

// normalised names and spellings of them
var nyms = []string{"alice@mute.berlin", "bob@mute.berlin"}
var peers = []string{"carol@mute.berlin", "alice@mute.berlin"}

func spell(id string, k int) string {
	if k == 0 {
		return id
	}
	return strings.ToUpper(id[:1]) + id[1:]
}

type contact struct {
	unmapped, name string
	typ            msgdb.ContactType
	order          int
}

type account struct {
	key        byte
	server     string
	min, max   int32
	last, time int64
}

type message struct {
	id   int64
	peer string
	text string
	read bool
	out  bool
}

type nym struct {
	unmapped, name string
	all, accounts  int64
	contacts       map[string]*contact
	accts          map[string]*account
	msgs           []*message
	cache          map[string][]string
	in             []string
	outq           []string
}

type model struct {
	nyms   map[string]*nym
	values map[string]string
	in     []string // order of the in queue: nym
	n      int
}

func sorted(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func (a *account) text() string {
	if a == nil {
		return "none"
	}
	pk, s := mdb.Keys(a.key)
	return fmt.Sprintf("%x %s %x %d %d last=%d time=%d", pk[:4], a.server, s[:4], a.min, a.max, a.last, a.time)
}

func full(name, id string) string {
	if name == "" {
		return id
	}
	return name + " <" + id + ">"
}

// text is everything the database shows, from the model.
func (m *model) text() string {
	var b strings.Builder
	for _, k := range []string{msgdb.ActiveUID, msgdb.WalletKey} {
		fmt.Fprintf(&b, "value %s=%q\n", k, m.values[k])
	}
	var l1, l2 []string
	for _, id := range nyms {
		if n := m.nyms[id]; n != nil {
			l1 = append(l1, id)
			l2 = append(l2, full(n.name, n.unmapped))
		}
	}
	fmt.Fprintf(&b, "nyms %q %q\n", l1, l2)
	for _, id := range nyms {
		n := m.nyms[id]
		if n == nil {
			fmt.Fprintf(&b, "%s: no nym\n", id)
			continue
		}
		fmt.Fprintf(&b, "%s: %q %q upkeep %d %d\n", id, n.unmapped, n.name, n.all, n.accounts)
		var white, black []string
		for _, p := range peers {
			c := n.contacts[p]
			if c == nil {
				fmt.Fprintf(&b, " contact %s: \"\" \"\" 0\n", p)
				continue
			}
			fmt.Fprintf(&b, " contact %s: %q %q %d\n", p, c.unmapped, c.name, c.typ)
			switch c.typ {
			case msgdb.WhiteList:
				white = append(white, full(c.name, c.unmapped))
			case msgdb.BlackList:
				black = append(black, full(c.name, c.unmapped))
			}
		}
		sort.Strings(white)
		sort.Strings(black)
		fmt.Fprintf(&b, " white %q black %q\n", white, black)
		var accs []string
		for _, p := range append([]string{""}, peers...) {
			a := n.accts[p]
			fmt.Fprintf(&b, " account %q: %s\n", p, a.text())
			if a != nil {
				accs = append(accs, p)
			}
			fmt.Fprintf(&b, " cache %q: ", p)
			ids := map[string]bool{}
			for _, x := range n.cache[p] {
				ids[x] = true
			}
			fmt.Fprintf(&b, "%q\n", sorted(ids))
		}
		sort.Strings(accs)
		fmt.Fprintf(&b, " accounts %q\n", accs)
		for _, x := range n.msgs {
			me, c := full(n.name, n.unmapped), n.contacts[x.peer]
			you := full(c.name, c.unmapped)
			from, to := id, x.peer
			if !x.out {
				from, to, me, you = to, from, you, me
			}
			fmt.Fprintf(&b, "%s>%s in=%v sent=false date=%d subj=%q read=%v %q %q %q\n", from, to, !x.out, 7, x.text, x.read, me, you, x.text)
		}
	}
	return b.String()
}

// shown is the same, read from the database.
func shown(d *mdb.DB) (string, error) {
	var b strings.Builder
	for _, k := range []string{msgdb.ActiveUID, msgdb.WalletKey} {
		v, err := d.GetValue(k)
		if err != nil {
			return "", err
		}
		fmt.Fprintf(&b, "value %s=%q\n", k, v)
	}
	l1, err := d.GetNyms(true)
	if err != nil {
		return "", err
	}
	l2, err := d.GetNyms(false)
	if err != nil {
		return "", err
	}
	// both lists have the same order
	ord := map[string]string{}
	if len(l1) != len(l2) {
		return "", fmt.Errorf("nyms %q %q", l1, l2)
	}
	for i := range l1 {
		ord[l1[i]] = l2[i]
	}
	l1, l2 = nil, nil
	for _, id := range nyms {
		if f, ok := ord[id]; ok {
			l1, l2 = append(l1, id), append(l2, f)
			delete(ord, id)
		}
	}
	if len(ord) > 0 {
		return "", fmt.Errorf("unknown nyms %q", ord)
	}
	fmt.Fprintf(&b, "nyms %q %q\n", l1, l2)
	for _, id := range nyms {
		unm, name, err := d.GetNym(id)
		if err != nil {
			return "", err
		}
		if unm == "" {
			fmt.Fprintf(&b, "%s: no nym\n", id)
			// nothing is found for it
			if _, err := d.GetContacts(id, false); err == nil {
				return "", fmt.Errorf("contacts of a deleted identity")
			}
			if _, _, _, err := d.GetContact(id, peers[0]); err == nil {
				return "", fmt.Errorf("contact of a deleted identity")
			}
			if _, err := d.GetAccounts(id); err == nil {
				return "", fmt.Errorf("accounts of a deleted identity")
			}
			if mdb.Account(d.MsgDB, id, "") != "none" {
				return "", fmt.Errorf("account of a deleted identity")
			}
			if _, err := d.GetMsgIDs(id); err == nil {
				return "", fmt.Errorf("messages of a deleted identity")
			}
			if _, err := d.GetMessageIDCache(id, ""); err == nil {
				return "", fmt.Errorf("cache of a deleted identity")
			}
			continue
		}
		all, err := d.GetUpkeepAll(id)
		if err != nil {
			return "", err
		}
		acc, err := d.GetUpkeepAccounts(id)
		if err != nil {
			return "", err
		}
		fmt.Fprintf(&b, "%s: %q %q upkeep %d %d\n", id, unm, name, all, acc)
		for _, p := range peers {
			u, n, t, err := d.GetContact(id, p)
			if err != nil {
				return "", err
			}
			fmt.Fprintf(&b, " contact %s: %q %q %d\n", p, u, n, t)
		}
		white, err := d.GetContacts(id, false)
		if err != nil {
			return "", err
		}
		black, err := d.GetContacts(id, true)
		if err != nil {
			return "", err
		}
		sort.Strings(white)
		sort.Strings(black)
		fmt.Fprintf(&b, " white %q black %q\n", white, black)
		for _, p := range append([]string{""}, peers...) {
			a := mdb.Account(d.MsgDB, id, p)
			fmt.Fprintf(&b, " account %q: %s\n", p, a)
			ids := map[string]bool{}
			u := "x"
			if p != "" {
				if u, _, _, err = d.GetContact(id, p); err != nil {
					return "", err
				}
			}
			c, err := d.GetMessageIDCache(id, p)
			if err != nil && u != "" {
				return "", err
			}
			for k, v := range c {
				if v {
					ids[k] = true
				}
			}
			fmt.Fprintf(&b, " cache %q: %q\n", p, sorted(ids))
		}
		accs, err := d.GetAccounts(id)
		if err != nil {
			return "", err
		}
		sort.Strings(accs)
		fmt.Fprintf(&b, " accounts %q\n", accs)
		ms, err := mdb.Messages(d.MsgDB, id)
		if err != nil {
			return "", err
		}
		b.WriteString(ms)
	}
	return b.String(), nil
}

func (m *model) Key() string { return m.text() + fmt.Sprint(m.in) }

func check(s vk.Sys, mm vk.Model) error {
	d, m := s.(*mdb.DB), mm.(*model)
	got, err := shown(d)
	if err != nil {
		return vk.Badf("read", "%v", err)
	}
	if want := m.text(); got != want {
		return vk.Badf("content", "database shows\n%swant\n%s", got, want)
	}
	// messages are not reachable through other identities
	for _, id := range nyms {
		if m.nyms[id] == nil {
			continue
		}
		for _, o := range nyms {
			if o == id {
				continue
			}
			for _, x := range m.nyms[id].msgs {
				if _, _, text, _, err := d.GetMessage(o, x.id); err == nil {
					return vk.Badf("foreign:get", "%s reads message %q of %s", o, text, id)
				}
				if m.nyms[o] != nil {
					if err := d.DelMessage(o, x.id); err == nil {
						return vk.Badf("foreign:delete", "%s deletes a message of %s", o, id)
					}
				}
			}
		}
	}
	// undelivered mail and the queues
	for _, id := range nyms {
		n := m.nyms[id]
		if n == nil {
			continue
		}
		num, _, text, _, _, _, err := d.GetUndeliveredMessage(id)
		if err != nil {
			return vk.Badf("undelivered", "%v", err)
		}
		var want int64
		for _, x := range n.msgs {
			if x.out && want == 0 && !contains(n.outq, x.text) {
				want = x.id
			}
		}
		if num != want {
			return vk.Badf("undelivered", "%s: %d %q, want %d", id, num, text, want)
		}
		_, msg, _, _, _, _, err := d.GetOutQueue(id)
		if err != nil {
			return vk.Badf("outqueue", "%v", err)
		}
		w := ""
		if len(n.outq) > 0 {
			w = "enc " + n.outq[0]
		}
		if msg != w {
			return vk.Badf("outqueue", "%s: %q, want %q", id, msg, w)
		}
	}
	for _, id := range m.in {
		idx, my, _, msg, _, err := d.GetInQueue()
		if err != nil || idx == 0 || my+"/"+msg != id {
			return vk.Badf("inqueue", "%s/%s %v, want %s", my, msg, err, id)
		}
		if err := d.DelInQueue(idx); err != nil {
			return vk.Badf("inqueue", "%v", err)
		}
	}
	if idx, my, _, msg, _, err := d.GetInQueue(); err != nil || idx != 0 {
		return vk.Badf("inqueue:ghost", "%s/%s %v", my, msg, err)
	}
	// nothing is left behind for identities that do not exist
	for _, t := range []string{"Contacts.MyID", "Accounts.MyID", "Messages.Self", "Attachments.Self", "Chunks.Self", "OutQueue.Self", "InQueue.MyID", "MessageIDCache.MyID"} {
		f := strings.Split(t, ".")
		var c int
		err := d.DB().QueryRow("SELECT count(*) FROM " + f[0] + " WHERE " + f[1] + " NOT IN (SELECT UID FROM Nyms);").Scan(&c)
		if err == nil && c > 0 {
			return vk.Badf("left:"+f[0], "%d rows of deleted identities", c)
		}
	}
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func ops(r *vk.R) (l []vk.Op) {
	add := func(name string, en func(m *model) bool, f func(d *mdb.DB, m *model) error) {
		l = append(l, vk.Op{Name: name,
			Enabled: func(m vk.Model) bool { return en == nil || en(m.(*model)) },
			Do:      func(s vk.Sys, m vk.Model) error { return f(s.(*mdb.DB), m.(*model)) }})
	}
	// expect compares whether an operation succeeded.
	expect := func(what string, ok bool, err error) error {
		if ok != (err == nil) {
			return vk.Badf("result:"+what, "%s: want success %v, got %v", what, ok, err)
		}
		return nil
	}
	for i, id := range nyms {
		id := id
		sh := id[:1]
		peer := func(k int) string { // the peers this identity has
			return peers[k]
		}
		ex := func(m *model) bool { return m.nyms[id] != nil }
		for k := 0; k < 2; k++ {
			k := k
			add(fmt.Sprintf("add nym %s %d", sh, k), nil, func(d *mdb.DB, m *model) error {
				n := m.nyms[id]
				if n == nil {
					n = &nym{contacts: map[string]*contact{}, accts: map[string]*account{}, cache: map[string][]string{}}
					m.nyms[id] = n
				}
				n.unmapped, n.name = spell(id, k), []string{"", "Name " + sh}[k]
				return expect("AddNym", true, d.AddNym(id, n.unmapped, n.name))
			})
		}
		add("delete nym "+sh, nil, func(d *mdb.DB, m *model) error {
			err := expect("DelNym", ex(m), d.DelNym(id))
			delete(m.nyms, id)
			var in []string
			for _, x := range m.in {
				if !strings.HasPrefix(x, id) {
					in = append(in, x)
				}
			}
			m.in = in
			return err
		})
		for k := range peers {
			p := peer(k)
			ps := p[:1]
			for _, t := range []msgdb.ContactType{msgdb.WhiteList, msgdb.GrayList, msgdb.BlackList} {
				t := t
				if k == 1 && t == msgdb.GrayList {
					continue
				}
				add(fmt.Sprintf("contact %s %s type %d", sh, ps, t), nil, func(d *mdb.DB, m *model) error {
					m.n++
					c := &contact{spell(p, int(t)%2), []string{"", "Peer " + ps}[int(t)/2], t, m.n}
					err := expect("AddContact", ex(m), d.AddContact(id, p, c.unmapped, c.name, t))
					if n := m.nyms[id]; n != nil {
						n.contacts[p] = c
					}
					return err
				})
			}
			add(fmt.Sprintf("remove contact %s %s", sh, ps), ex, func(d *mdb.DB, m *model) error {
				if c := m.nyms[id].contacts[p]; c != nil {
					c.typ = msgdb.GrayList
				}
				return expect("RemoveContact", true, d.RemoveContact(id, p))
			})
			for _, out := range []bool{false, true} {
				out := out
				if out && k == 1 {
					continue
				}
				add(fmt.Sprintf("message %s %s %v", sh, ps, out), ex, func(d *mdb.DB, m *model) error {
					n := m.nyms[id]
					m.n++
					x := &message{peer: p, text: fmt.Sprint("text ", m.n), out: out}
					err := d.AddMessage(id, p, 7, out, x.text, false, 1, 2)
					if n.contacts[p] == nil {
						return expect("AddMessage", false, err)
					}
					if err != nil {
						return expect("AddMessage", true, err)
					}
					ids, err := mdb.IDs(d.MsgDB, id)
					if err != nil || len(ids) != len(n.msgs)+1 {
						return vk.Badf("message:count", "%d messages of %s, want %d (%v)", len(ids), id, len(n.msgs)+1, err)
					}
					x.id = ids[len(ids)-1].MsgID
					n.msgs = append(n.msgs, x)
					return nil
				})
			}
		}
		for _, p := range append([]string{""}, peers[0]) {
			p := p
			known := func(m *model) bool { return ex(m) && (p == "" || m.nyms[id].contacts[p] != nil) }
			add(fmt.Sprintf("account %s %.1s", sh, p), ex, func(d *mdb.DB, m *model) error {
				m.n++
				a := &account{key: byte(m.n + 10*i), server: fmt.Sprint("server", m.n), min: int32(m.n), max: int32(m.n + 1)}
				pk, s := mdb.Keys(a.key)
				n := m.nyms[id]
				ok := known(m) && n.accts[p] == nil
				if ok {
					n.accts[p] = a
				}
				return expect("AddAccount", ok, d.AddAccount(id, p, pk, a.server, s, a.min, a.max))
			})
			add(fmt.Sprintf("account times %s %.1s", sh, p), known, func(d *mdb.DB, m *model) error {
				m.n++
				t := int64(100 + m.n*7%10) // goes back, too
				if a := m.nyms[id].accts[p]; a != nil {
					a.time, a.last = t, t+1000
				}
				if err := expect("SetAccountTime", true, d.SetAccountTime(id, p, t)); err != nil {
					return err
				}
				return expect("SetAccountLastMsg", true, d.SetAccountLastMsg(id, p, t+1000))
			})
			add(fmt.Sprintf("cache %s %.1s", sh, p), ex, func(d *mdb.DB, m *model) error {
				n := m.nyms[id]
				c := fmt.Sprint("id", len(n.cache[p]))
				if known(m) {
					n.cache[p] = append(n.cache[p], c)
				}
				return expect("AddMessageIDCache", known(m), d.AddMessageIDCache(id, p, c))
			})
			add(fmt.Sprintf("clean cache %s %.1s", sh, p), known, func(d *mdb.DB, m *model) error {
				n := m.nyms[id]
				l := n.cache[p]
				if len(l) == 0 {
					return expect("RemoveMessageIDCache", false, d.RemoveMessageIDCache(id, p, "id0"))
				}
				c := l[len(l)-1]
				for i := range l {
					if l[i] == c {
						n.cache[p] = append([]string(nil), l[i:]...)
						break
					}
				}
				return expect("RemoveMessageIDCache", true, d.RemoveMessageIDCache(id, p, c))
			})
		}
		add("in queue "+sh, func(m *model) bool { return len(m.in) < 3 }, func(d *mdb.DB, m *model) error {
			m.n++
			msg := fmt.Sprint("incoming ", m.n)
			if ex(m) {
				m.in = append(m.in, id+"/"+msg)
			}
			return expect("AddInQueue", ex(m), d.AddInQueue(id, "", 1, msg))
		})
		add("out queue "+sh, ex, func(d *mdb.DB, m *model) error {
			n := m.nyms[id]
			for _, x := range n.msgs {
				if x.out && !contains(n.outq, x.text) {
					n.outq = append(n.outq, x.text)
					return expect("AddOutQueue", true, d.AddOutQueue(id, x.id, "enc "+x.text, "addr", 1, 2))
				}
			}
			return nil
		})
		add("read "+sh, func(m *model) bool { return ex(m) && len(m.nyms[id].msgs) > 0 }, func(d *mdb.DB, m *model) error {
			x := m.nyms[id].msgs[0]
			x.read = true
			return expect("ReadMessage", true, d.ReadMessage(x.id))
		})
		add("upkeep "+sh, ex, func(d *mdb.DB, m *model) error {
			m.n++
			n := m.nyms[id]
			n.all, n.accounts = int64(m.n), int64(m.n+100)
			if err := expect("SetUpkeepAll", true, d.SetUpkeepAll(id, n.all)); err != nil {
				return err
			}
			return expect("SetUpkeepAccounts", true, d.SetUpkeepAccounts(id, n.accounts))
		})
	}
	for k, v := range []string{"x", "y"} {
		v := v
		key := []string{msgdb.ActiveUID, msgdb.WalletKey}[k]
		add("value "+key, nil, func(d *mdb.DB, m *model) error {
			m.n++
			m.values[key] = fmt.Sprint(v, m.n)
			return expect("AddValue", true, d.AddValue(key, m.values[key]))
		})
	}
	add("reopen", nil, func(d *mdb.DB, m *model) error { return expect("reopen", true, d.Reopen()) })
	return
}

func (m *model) clone() *model {
	c := &model{nyms: map[string]*nym{}, values: map[string]string{}, in: append([]string(nil), m.in...), n: m.n}
	for k, v := range m.values {
		c.values[k] = v
	}
	for k, n := range m.nyms {
		x := *n
		x.contacts, x.accts, x.cache, x.msgs = map[string]*contact{}, map[string]*account{}, map[string][]string{}, nil
		for i, v := range n.contacts {
			y := *v
			x.contacts[i] = &y
		}
		for i, v := range n.accts {
			y := *v
			x.accts[i] = &y
		}
		for i, v := range n.cache {
			x.cache[i] = append([]string(nil), v...)
		}
		for _, v := range n.msgs {
			y := *v
			x.msgs = append(x.msgs, &y)
		}
		x.outq = append([]string(nil), n.outq...)
		c.nyms[k] = &x
	}
	return c
}

// filled is a database with the given operations done.
func filled(all []vk.Op, names []string) func() (vk.Sys, vk.Model, error) {
	d, err := mdb.Open()
	if err != nil {
		panic(err)
	}
	m := &model{nyms: map[string]*nym{}, values: map[string]string{}}
	for _, n := range names {
		for _, o := range all {
			if o.Name == n {
				if err := o.Do(d, m); err != nil {
					// report it as a violation of the first history
					return func() (vk.Sys, vk.Model, error) { return nil, nil, err }
				}
			}
		}
	}
	snap, err := d.Take()
	if err != nil {
		panic(err)
	}
	return func() (vk.Sys, vk.Model, error) {
		d, err := snap.Open()
		return d, m.clone(), err
	}
}

func main() {
	r := vk.Start("C09")
	r.Fork()
	if err := mdb.Template(nil); err != nil {
		panic(err)
	}
	l := ops(r)
	r.Note("operations", len(l))
	nymsOnly := []string{"add nym a 0", "add nym b 1"}
	rich := []string{"add nym a 1", "contact a c type 0", "add nym b 0", "contact b c type 2", "contact b a type 0", "account a ", "account b ", "account b c", "account times b c",
		"message b c false", "message a c true", "message b a false", "message b c true", "out queue a", "cache a ", "cache a ", "cache b ", "cache b c", "cache a c",
		"in queue b", "in queue a", "read b", "upkeep a", "upkeep b"}
	var sel []vk.Op
	for _, o := range l {
		switch o.Name {
		case "add nym a 0", "add nym b 0", "delete nym a", "delete nym b", "contact a c type 0", "contact a c type 1", "contact a c type 2", "contact b c type 0", "remove contact b c",
			"message a c false", "account a ", "account a c", "account times a ", "cache a c", "clean cache a ", "in queue a", "out queue b", "read a", "upkeep a":
			sel = append(sel, o)
		}
	}
	for _, c := range []struct {
		name  string
		ops   []vk.Op
		start []string
		q, t  int
		merge bool
	}{
		{"empty", l, nil, 3, 5, true},
		{"two identities", l, nymsOnly, 2, 3, false},
		{"two identities with data", l, rich, 2, 3, false},
		{"two identities with data, some operations", sel, rich, 3, 4, false},
		{"two identities, longer", l, nymsOnly, 2, 5, true},
	} {
		ls := &vk.Lockstep{Name: c.name, Ops: c.ops, Depth: r.Pick(c.q, c.t), Merge: c.merge, New: filled(l, c.start), Check: check}
		if !ls.Explore(r) {
			r.Cap(c.name)
		}
	}
	r.Done()
}
