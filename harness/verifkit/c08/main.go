// C08: the queues of the message database, compared with a reference model on
// all sequences of operations, and at all crash points.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mutecomm/mute/msgdb"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/crashfs"
	"github.com/mutecomm/mute/verifkit/mdb"
	_ "github.com/mutecomm/mute/verifkit/quickdb"
)

var nyms = []string{"alice@mute.berlin", "bob@mute.berlin"}
var contacts = []string{"carol@mute.berlin", "dave@mute.berlin"}

func setup(db *msgdb.MsgDB) error {
	for _, n := range nyms {
		if err := db.AddNym(n, n, ""); err != nil {
			return err
		}
	}
	for k, c := range contacts {
		for i := range nyms {
			// different contact numbers for the same contact
			if err := db.AddContact(nyms[(i+k)%2], c, c, "", msgdb.WhiteList); err != nil {
				return err
			}
		}
	}
	return nil
}

type mail struct {
	id       int64
	nym      int
	peer     string
	out      bool
	toSend   bool
	sent     bool
	read     bool
	sign     bool
	date     int64
	text     string
	min, max int32
	gone     bool
}

type oq struct {
	idx    int64
	m      *mail
	msg    string
	addr   string
	min    int32
	max    int32
	env    bool
	resend bool
}

type iq struct {
	idx     int64
	nym     int
	contact string
	msg     string
	env     bool
	date    int64
}

type model struct {
	mails [2][]*mail
	out   [2][]*oq
	in    []*iq
	n     int
}

func (m *model) listed(n int) string {
	var b strings.Builder
	for _, x := range m.mails[n] {
		from, to := nyms[n], x.peer
		if !x.out {
			from, to = to, from
		}
		fmt.Fprintf(&b, "%s>%s in=%v sent=%v date=%d subj=%q read=%v %q %q %q\n", from, to, !x.out, x.sent, x.date,
			strings.SplitN(x.text, "\n", 2)[0], x.read, from, to, x.text)
	}
	return b.String()
}

func (m *model) queued() string {
	var b strings.Builder
	for _, q := range m.in {
		fmt.Fprintf(&b, "in %s/%s %q env=%v\n", nyms[q.nym], q.contact, q.msg, q.env)
	}
	for n, name := range nyms {
		for _, re := range []bool{false, true} {
			for _, q := range m.out[n] {
				if q.resend == re {
					fmt.Fprintf(&b, "out %s resend=%v %q to %q %d-%d env=%v\n", name, re, q.msg, q.addr, q.min, q.max, q.env)
				}
			}
		}
		for _, x := range m.mails[n] {
			if x.toSend {
				fmt.Fprintf(&b, "undelivered %s to %s %q sign=%v %d-%d\n", name, x.peer, x.text, x.sign, x.min, x.max)
			}
		}
	}
	return b.String()
}

func (m *model) Key() string { return m.listed(0) + "|" + m.listed(1) + "|" + m.queued() }

func (m *model) head(n int) *oq {
	for _, q := range m.out[n] {
		if !q.resend {
			return q
		}
	}
	return nil
}

func (m *model) resent(n int) *oq {
	for _, q := range m.out[n] {
		if q.resend {
			return q
		}
	}
	return nil
}

func (m *model) undelivered(n int) *mail {
	for _, x := range m.mails[n] {
		if x.toSend {
			return x
		}
	}
	return nil
}

func (m *model) drop(n int, q *oq) {
	for i, x := range m.out[n] {
		if x == q {
			m.out[n] = append(append([]*oq(nil), m.out[n][:i]...), m.out[n][i+1:]...)
			return
		}
	}
}

// added finds the message added last and gives it to the model.
func added(d *mdb.DB, m *model, x *mail) error {
	ids, err := mdb.IDs(d.MsgDB, nyms[x.nym])
	if err != nil {
		return vk.Badf("list", "%v", err)
	}
	if len(ids) != len(m.mails[x.nym])+1 {
		return vk.Badf("add:count", "%d messages listed, want %d", len(ids), len(m.mails[x.nym])+1)
	}
	x.id = ids[len(ids)-1].MsgID
	for _, o := range m.mails[x.nym] {
		if o.id >= x.id {
			return vk.Badf("add:order", "new message is not numbered after the older ones")
		}
	}
	m.mails[x.nym] = append(m.mails[x.nym], x)
	return nil
}

// getOut compares the head of the out queue and learns its index.
func getOut(d *mdb.DB, m *model, n int) (*oq, error) {
	idx, msg, addr, min, max, env, err := d.GetOutQueue(nyms[n])
	if err != nil {
		return nil, vk.Badf("out:get", "%v", err)
	}
	h := m.head(n)
	if h == nil {
		if idx != 0 || msg != "" {
			return nil, vk.Badf("out:ghost", "out queue of %s shows %q, but is empty", nyms[n], msg)
		}
		return nil, nil
	}
	got := fmt.Sprintf("%q %q %d %d %v", msg, addr, min, max, env)
	want := fmt.Sprintf("%q %q %d %d %v", h.msg, h.addr, h.min, h.max, h.env)
	if idx == 0 || got != want {
		return nil, vk.Badf("out:head", "head of the out queue of %s is %s, want %s", nyms[n], got, want)
	}
	if h.idx != 0 && h.idx != idx {
		return nil, vk.Badf("out:index", "entry changed its index")
	}
	h.idx = idx
	return h, nil
}

func getUndelivered(d *mdb.DB, m *model, n int) (*mail, error) {
	num, contact, msg, sign, min, max, err := d.GetUndeliveredMessage(nyms[n])
	if err != nil {
		return nil, vk.Badf("undelivered:get", "%v", err)
	}
	u := m.undelivered(n)
	if u == nil {
		if num != 0 || msg != nil {
			return nil, vk.Badf("undelivered:ghost", "undelivered message %q shown for %s", msg, nyms[n])
		}
		return nil, nil
	}
	got := fmt.Sprintf("%d %s %q %v %d %d", num, contact, msg, sign, min, max)
	want := fmt.Sprintf("%d %s %q %v %d %d", u.id, u.peer, u.text, u.sign, u.min, u.max)
	if got != want {
		return nil, vk.Badf("undelivered:oldest", "oldest undelivered message of %s is %s, want %s", nyms[n], got, want)
	}
	return u, nil
}

func getIn(d *mdb.DB, m *model) (*iq, error) {
	idx, my, contact, msg, env, err := d.GetInQueue()
	if err != nil {
		return nil, vk.Badf("in:get", "%v", err)
	}
	if len(m.in) == 0 {
		if idx != 0 || msg != "" {
			return nil, vk.Badf("in:ghost", "in queue shows %q, but is empty", msg)
		}
		return nil, nil
	}
	h := m.in[0]
	got := fmt.Sprintf("%s %s %q %v", my, contact, msg, env)
	want := fmt.Sprintf("%s %s %q %v", nyms[h.nym], h.contact, h.msg, h.env)
	if idx == 0 || got != want {
		return nil, vk.Badf("in:head", "head of the in queue is %s, want %s", got, want)
	}
	h.idx = idx
	return h, nil
}

func do(what string, err error) error {
	if err != nil {
		return vk.Badf("fails:"+what, "%s: %v", what, err)
	}
	return nil
}

func check(s vk.Sys, mm vk.Model) error {
	d, m := s.(*mdb.DB), mm.(*model)
	lists := func() error {
		for n, name := range nyms {
			got, err := mdb.Messages(d.MsgDB, name)
			if err != nil {
				return vk.Badf("list", "messages of %s: %v", name, err)
			}
			if want := m.listed(n); got != want {
				return vk.Badf("messages", "messages of %s:\n%swant:\n%s", name, got, want)
			}
		}
		return nil
	}
	if err := lists(); err != nil {
		return err
	}
	for n := range nyms {
		if _, err := getUndelivered(d, m, n); err != nil {
			return err
		}
		if _, err := getOut(d, m, n); err != nil {
			return err
		}
	}
	if _, err := getIn(d, m); err != nil {
		return err
	}
	key := m.Key()
	// everything that is in the queues
	want := m.queued()
	got, err := mdb.Drain(d.MsgDB, nyms)
	if err != nil {
		return vk.Badf("drain", "%v", err)
	}
	if got != want {
		return vk.Badf("queues", "queues contain:\n%swant:\n%s", got, want)
	}
	// draining marks as sent exactly what was in the out queues
	c := &model{}
	for n := range nyms {
		for _, x := range m.mails[n] {
			if x.toSend {
				continue
			}
			y := *x
			for _, q := range m.out[n] {
				if q.m == x {
					y.sent, y.date = true, 77777
				}
			}
			c.mails[n] = append(c.mails[n], &y)
		}
	}
	m = c
	if err := lists(); err != nil {
		return err
	}
	_ = key
	return nil
}

func ops(r *vk.R) (l []vk.Op) {
	add := func(name string, en func(m *model) bool, f func(d *mdb.DB, m *model) error) {
		l = append(l, vk.Op{Name: name,
			Enabled: func(m vk.Model) bool { return en == nil || en(m.(*model)) },
			Do:      func(s vk.Sys, m vk.Model) error { return f(s.(*mdb.DB), m.(*model)) }})
	}
	max := r.Pick(3, 4)
	for n := range nyms {
		n := n
		nm := nyms[n]
		sh := nm[:1]
		count := func(m *model) int { return len(m.mails[n]) }
		add("write "+sh, func(m *model) bool { return count(m) < max }, func(d *mdb.DB, m *model) error {
			m.n++
			x := &mail{nym: n, peer: contacts[m.n%2], out: true, toSend: true, sign: m.n%3 == 0, date: dateOf(1000, m.n),
				text: fmt.Sprintf("\tsubject %d \n body %d\n\n ", m.n, m.n), min: int32(m.n), max: int32(10 * m.n)}
			if err := do("AddMessage", d.AddMessage(nm, x.peer, x.date, true, x.text, x.sign, x.min, x.max)); err != nil {
				return err
			}
			return added(d, m, x)
		})
		add("got "+sh, func(m *model) bool { return count(m) < max }, func(d *mdb.DB, m *model) error {
			m.n++
			x := &mail{nym: n, peer: contacts[m.n%2], date: dateOf(1000, m.n), text: fmt.Sprintf("only subject %d", m.n)}
			if err := do("AddMessage", d.AddMessage(nm, x.peer, x.date, false, x.text, false, 0, 0)); err != nil {
				return err
			}
			return added(d, m, x)
		})
		add("encrypt "+sh, func(m *model) bool { return m.undelivered(n) != nil }, func(d *mdb.DB, m *model) error {
			u, err := getUndelivered(d, m, n)
			if err != nil {
				return err
			}
			m.n++
			q := &oq{m: u, msg: fmt.Sprintf("encrypted %d", m.n), addr: fmt.Sprintf("nymaddress %d", m.n), min: u.min, max: u.max}
			if err := do("AddOutQueue", d.AddOutQueue(nm, u.id, q.msg, q.addr, q.min, q.max)); err != nil {
				return err
			}
			u.toSend = false
			m.out[n] = append(m.out[n], q)
			return nil
		})
		hasHead := func(m *model) bool { return m.head(n) != nil }
		onHead := func(name string, f func(d *mdb.DB, m *model, q *oq) error) {
			add(name+" "+sh, hasHead, func(d *mdb.DB, m *model) error {
				q, err := getOut(d, m, n)
				if err != nil {
					return err
				}
				return f(d, m, q)
			})
			add(name+" resend "+sh, func(m *model) bool { q := m.resent(n); return q != nil && q.idx != 0 }, func(d *mdb.DB, m *model) error {
				return f(d, m, m.resent(n))
			})
		}
		onHead("envelope", func(d *mdb.DB, m *model, q *oq) error {
			m.n++
			q.msg, q.env = fmt.Sprintf("envelope %d", m.n), true
			return do("SetOutQueue", d.SetOutQueue(q.idx, q.msg))
		})
		add("resend "+sh, hasHead, func(d *mdb.DB, m *model) error {
			q, err := getOut(d, m, n)
			if err != nil {
				return err
			}
			q.resend = true
			return do("SetResendOutQueue", d.SetResendOutQueue(q.idx))
		})
		add("clear resend "+sh, nil, func(d *mdb.DB, m *model) error {
			for _, q := range m.out[n] {
				q.resend = false
			}
			return do("ClearResendOutQueue", d.ClearResendOutQueue(nm))
		})
		onHead("sent", func(d *mdb.DB, m *model, q *oq) error {
			m.n++
			date := dateOf(5000, m.n)
			if err := do("RemoveOutQueue", d.RemoveOutQueue(q.idx, date)); err != nil {
				return err
			}
			q.m.sent, q.m.date = true, date
			m.drop(n, q)
			return nil
		})
		onHead("retract", func(d *mdb.DB, m *model, q *oq) error {
			if err := do("RetractOutQueue", d.RetractOutQueue(q.idx)); err != nil {
				return err
			}
			q.m.toSend = true
			m.drop(n, q)
			return nil
		})
		for _, last := range []bool{false, true} {
			last := last
			pick := func(m *model) *mail {
				l := m.mails[n]
				if len(l) == 0 || last && len(l) == 1 {
					return nil
				}
				if last {
					return l[len(l)-1]
				}
				return l[0]
			}
			w := "first"
			if last {
				w = "last"
			}
			add("read "+w+" "+sh, func(m *model) bool { return pick(m) != nil }, func(d *mdb.DB, m *model) error {
				x := pick(m)
				x.read = true
				return do("ReadMessage", d.ReadMessage(x.id))
			})
			add("delete "+w+" "+sh, func(m *model) bool { return pick(m) != nil }, func(d *mdb.DB, m *model) error {
				x := pick(m)
				if err := d.DelMessage(nyms[1-n], x.id); err == nil {
					return vk.Badf("delete:foreign", "another identity deleted the message")
				}
				if err := do("DelMessage", d.DelMessage(nm, x.id)); err != nil {
					return err
				}
				for i, y := range m.mails[n] {
					if y == x {
						m.mails[n] = append(append([]*mail(nil), m.mails[n][:i]...), m.mails[n][i+1:]...)
						break
					}
				}
				for _, q := range m.out[n] {
					if q.m == x {
						m.drop(n, q)
					}
				}
				return nil
			})
		}
		for ci, c := range []string{"", contacts[0]} {
			c := c
			add(fmt.Sprintf("fetch %s %d", sh, ci), func(m *model) bool { return len(m.in) < max }, func(d *mdb.DB, m *model) error {
				m.n++
				q := &iq{nym: n, contact: c, msg: fmt.Sprintf("incoming %d", m.n), env: true, date: dateOf(3000, m.n)}
				if err := do("AddInQueue", d.AddInQueue(nm, c, q.date, q.msg)); err != nil {
					return err
				}
				m.in = append(m.in, q)
				return nil
			})
		}
	}
	onIn := func(name string, f func(d *mdb.DB, m *model, q *iq) error) {
		add(name, func(m *model) bool { return len(m.in) > 0 }, func(d *mdb.DB, m *model) error {
			q, err := getIn(d, m)
			if err != nil {
				return err
			}
			return f(d, m, q)
		})
	}
	onIn("unpack in", func(d *mdb.DB, m *model, q *iq) error {
		m.n++
		q.msg, q.env = fmt.Sprintf("unpacked %d", m.n), false
		return do("SetInQueue", d.SetInQueue(q.idx, q.msg))
	})
	for _, from := range contacts {
		for _, drop := range []bool{false, true} {
			from, drop := from, drop
			if drop && from != contacts[1] {
				continue
			}
			onIn(fmt.Sprintf("deliver in from %s, drop %v", from[:1], drop), func(d *mdb.DB, m *model, q *iq) error {
				m.n++
				x := &mail{nym: q.nym, peer: from, date: q.date, text: fmt.Sprintf(" plain %d \n\nof %s\n \n", m.n, q.msg)}
				if err := do("RemoveInQueue", d.RemoveInQueue(q.idx, x.text, from, drop)); err != nil {
					return err
				}
				m.in = m.in[1:]
				if drop {
					return nil
				}
				return added(d, m, x)
			})
		}
	}
	onIn("delete in", func(d *mdb.DB, m *model, q *iq) error {
		m.in = m.in[1:]
		return do("DelInQueue", d.DelInQueue(q.idx))
	})
	add("reopen", nil, func(d *mdb.DB, m *model) error { return do("reopen", d.Reopen()) })
	return l
}

// --- crashes ---------------------------------------------------------------

func with(dir string, f func(db *msgdb.MsgDB) error) error {
	db, err := msgdb.Open(filepath.Join(dir, "msgs"), mdb.Pass)
	if err != nil {
		return err
	}
	if err := f(db); err != nil {
		db.Close()
		return err
	}
	return db.Close()
}

func program() *crashfs.Program {
	p := &crashfs.Program{Name: "queues"}
	add := func(name string, f func(db *msgdb.MsgDB) error) {
		p.Steps = append(p.Steps, crashfs.Step{Name: name, Do: func(dir string) error { return with(dir, f) }})
	}
	p.Steps = append(p.Steps, crashfs.Step{Name: "setup", Do: func(dir string) error {
		if err := msgdb.Create(filepath.Join(dir, "msgs"), mdb.Pass, 1); err != nil {
			return err
		}
		return with(dir, setup)
	}})
	a := nyms[0]
	for i := 0; i < 3; i++ {
		i := i
		add("write", func(db *msgdb.MsgDB) error {
			return db.AddMessage(a, contacts[i%2], int64(i), true, fmt.Sprint("s", i, "\nb"), false, 1, 2)
		})
	}
	out := func(f func(db *msgdb.MsgDB, idx int64) error) func(db *msgdb.MsgDB) error {
		return func(db *msgdb.MsgDB) error {
			idx, _, _, _, _, _, err := db.GetOutQueue(a)
			if err != nil {
				return err
			}
			return f(db, idx)
		}
	}
	for i := 0; i < 3; i++ {
		i := i
		add("encrypt", func(db *msgdb.MsgDB) error {
			n, _, _, _, _, _, err := db.GetUndeliveredMessage(a)
			if err != nil {
				return err
			}
			return db.AddOutQueue(a, n, fmt.Sprint("e", i), "addr", 1, 2)
		})
	}
	add("envelope", out(func(db *msgdb.MsgDB, idx int64) error { return db.SetOutQueue(idx, "env") }))
	add("sent", out(func(db *msgdb.MsgDB, idx int64) error { return db.RemoveOutQueue(idx, 99) }))
	add("resend", out(func(db *msgdb.MsgDB, idx int64) error { return db.SetResendOutQueue(idx) }))
	add("retract", out(func(db *msgdb.MsgDB, idx int64) error { return db.RetractOutQueue(idx) }))
	add("clear", func(db *msgdb.MsgDB) error { return db.ClearResendOutQueue(a) })
	add("sent", out(func(db *msgdb.MsgDB, idx int64) error { return db.RemoveOutQueue(idx, 98) }))
	for i := 0; i < 3; i++ {
		i := i
		add("fetch", func(db *msgdb.MsgDB) error { return db.AddInQueue(nyms[i%2], "", int64(i), fmt.Sprint("in", i)) })
	}
	in := func(f func(db *msgdb.MsgDB, idx int64) error) func(db *msgdb.MsgDB) error {
		return func(db *msgdb.MsgDB) error {
			idx, _, _, _, _, err := db.GetInQueue()
			if err != nil {
				return err
			}
			return f(db, idx)
		}
	}
	add("unpack", in(func(db *msgdb.MsgDB, idx int64) error { return db.SetInQueue(idx, "un") }))
	add("deliver", in(func(db *msgdb.MsgDB, idx int64) error { return db.RemoveInQueue(idx, "p\nq", contacts[0], false) }))
	add("drop", in(func(db *msgdb.MsgDB, idx int64) error { return db.RemoveInQueue(idx, "p\nq", contacts[1], true) }))
	add("delete", in(func(db *msgdb.MsgDB, idx int64) error { return db.DelInQueue(idx) }))
	add("delmsg", func(db *msgdb.MsgDB) error {
		ids, err := mdb.IDs(db, a)
		if err != nil {
			return err
		}
		return db.DelMessage(a, ids[1].MsgID)
	})
	p.Dump = func(dir string) (s string, err error) {
		err = with(dir, func(db *msgdb.MsgDB) error {
			for _, n := range nyms {
				t, err := mdb.Messages(db, n)
				if err != nil {
					return err
				}
				s += t + "--\n"
			}
			t, err := mdb.Drain(db, nyms)
			s += t
			return err
		})
		return
	}
	return p
}

func main() {
	p := program()
	crashfs.Main(p)
	r := vk.Start("C08")
	r.Fork()
	if err := crashfs.Works(); err != nil {
		panic(fmt.Sprint("strace does not work here: ", err))
	}
	p.Explore(r)
	if err := mdb.Template(setup); err != nil {
		panic(err)
	}
	l := &vk.Lockstep{Name: "queues", Ops: ops(r), Depth: r.Pick(4, 5), Check: check,
		New: func() (vk.Sys, vk.Model, error) { d, err := mdb.Open(); return d, &model{}, err }}
	if len(os.Args) > 1 && os.Args[1] == "crash" {
		r.Done()
		return
	}
	if !l.Explore(r) {
		r.Cap("histories")
	}
	// longer histories along the life of mails: all sequences of the
	// operations of one identity
	one := &vk.Lockstep{Name: "one identity", Depth: r.Pick(7, 9), Check: check, New: l.New, Merge: true}
	for _, o := range l.Ops {
		if strings.HasSuffix(o.Name, " a") && !strings.HasPrefix(o.Name, "read") && !strings.HasPrefix(o.Name, "got") {
			one.Ops = append(one.Ops, o)
		}
	}
	if !one.Explore(r) {
		r.Cap("histories of one identity")
	}
	r.Done()
}

// dateOf returns the date of the n-th item. The dates are the correspondents'
// clocks': they do not follow the order in which the items are queued.
func dateOf(base, n int) int64 {
	return int64(base + (n*7)%10)
}
