// C26: what the standing of correspondents does to their mail, and what the
// contact commands do to their standing.
package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/uid/identity"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	"github.com/mutecomm/mute/verifkit/ctrlkit"
	"github.com/mutecomm/mute/verifkit/enginekit"
)

const now = 1700000000

var (
	r    *vk.R
	eng  *ctrlkit.Engine
	tmpl *enginekit.Template
	fake string // directory of the stand-in for mutecrypt
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// The identities and how they may be written.
var (
	owns     = []string{"alice@mute.one", "annie@mute.one"}
	contacts = []string{"bob@mute.one", "carol@mute.two"}
	written  = map[string][]string{
		"alice@mute.one": {"alice@mute.one", "Alice@Mute.One", "a1ice@mute.one"},
		"annie@mute.one": {"annie@mute.one", "ANNIE@mute.one"},
		"bob@mute.one":   {"bob@mute.one", "B0b@mute.one", "BOB@MUTE.ONE"},
		"carol@mute.two": {"carol@mute.two", "Carol@Mute.Two"},
	}
)

type standing int

const (
	unknown standing = iota
	white
	gray
	black
)

type entry struct {
	st   standing
	name string
}

type pair struct{ own, contact string }

// model is what each identity knows about each contact.
type model map[pair]entry

func (m model) Key() string {
	var l []string
	for _, o := range owns {
		for _, c := range contacts {
			e := m[pair{o, c}]
			l = append(l, fmt.Sprint(e.st, e.name))
		}
	}
	return strings.Join(l, "|")
}

type sys struct {
	db   *msgdb.MsgDB
	home string
	n    int // of messages
}

func (s *sys) Close() {
	s.db.Close()
	os.RemoveAll(s.home)
}

func open() (vk.Sys, vk.Model, error) {
	s := &sys{home: tmpl.Home()}
	var err error
	s.db, err = msgdb.Open(filepath.Join(s.home, "msgs"), []byte(enginekit.Pass))
	must(err)
	if eng == nil || eng.Dead {
		eng = ctrlkit.Start(s.db)
	}
	return s, model{}, nil
}

// run runs a command; fail is which command of the key engine fails.
func (s *sys) run(fail int, args ...string) (*ctrlkit.Result, []string, error) {
	eng.Use(s.db)
	must(ioutil.WriteFile(filepath.Join(fake, "fail"), []byte(fmt.Sprint(fail)), 0600))
	must(ioutil.WriteFile(filepath.Join(fake, "log"), nil, 0600))
	res, err := eng.Run(args...)
	r.Trans()
	b, e := ioutil.ReadFile(filepath.Join(fake, "log"))
	must(e)
	var asked []string
	if len(b) > 0 {
		asked = strings.Split(strings.TrimSpace(string(b)), "\n")
	}
	return res, asked, err
}

// fetched tells whether the keys of a contact were asked for completely.
func fetched(asked []string, contact string) bool {
	_, d, err := identity.MapPlus(contact)
	must(err)
	var sync, valid, search, keys, quit bool
	for _, a := range asked {
		switch a {
		case "hashchain sync --domain " + d:
			sync = true
		case "hashchain validate --domain " + d:
			valid = sync
		case "hashchain search --id " + contact:
			search = valid
		case "keyinit fetch --id " + contact:
			keys = search
		case "quit":
			quit = keys
		}
	}
	return quit
}

// got compares the outcome of a command.
func got(what string, res *ctrlkit.Result, ok bool) error {
	r.Outcome(fmt.Sprintf("%s: %v", strings.Fields(what)[0], ok))
	if (res.Err == nil) != ok {
		return vk.Badf("result", "%s: %v, should succeed: %v", what, res.Err, ok)
	}
	if res.Out != "" {
		return vk.Badf("result", "%s: writes %q", what, res.Out)
	}
	return nil
}

func add(own, contact, w, name string, fail int) func(vk.Sys, vk.Model) error {
	return func(ss vk.Sys, mm vk.Model) error {
		s, m := ss.(*sys), mm.(model)
		p := pair{own, contact}
		args := []string{"contact", "add", "--id", own, "--contact", w}
		if name != "" {
			args = append(args, "--full-name", name)
		}
		res, asked, err := s.run(fail, args...)
		if err != nil {
			return err
		}
		e := m[p]
		switch {
		case e.st == unknown && fail >= 0:
			return got("add without keys", res, false)
		case e.st != white && e.st != unknown && fail >= 0 && res.Err != nil:
			return nil // not added
		}
		if err := got("add", res, true); err != nil {
			return err
		}
		if e.st == unknown && !fetched(asked, contact) {
			return vk.Badf("keys", "added without fetching the keys: %q", asked)
		}
		if e.st != white {
			if name != "" {
				e.name = name
			}
			e.st = white
			m[p] = e
		}
		return nil
	}
}

func edit(own, contact, w, name string) func(vk.Sys, vk.Model) error {
	return func(ss vk.Sys, mm vk.Model) error {
		s, m := ss.(*sys), mm.(model)
		p := pair{own, contact}
		args := []string{"contact", "edit", "--id", own, "--contact", w}
		if name != "" {
			args = append(args, "--full-name", name)
		}
		res, _, err := s.run(-1, args...)
		if err != nil {
			return err
		}
		e := m[p]
		if e.st == unknown {
			return got("edit", res, false)
		}
		e.name = name
		m[p] = e
		return got("edit", res, true)
	}
}

func simple(cmd, own, contact, w string) func(vk.Sys, vk.Model) error {
	return func(ss vk.Sys, mm vk.Model) error {
		s, m := ss.(*sys), mm.(model)
		p := pair{own, contact}
		res, _, err := s.run(-1, "contact", cmd, "--id", own, "--contact", w)
		if err != nil {
			return err
		}
		e := m[p]
		ok := true
		switch cmd {
		case "remove":
			if e.st != unknown {
				e.st = gray
			}
		case "block":
			e.st = black
		case "unblock":
			if ok = e.st == black; ok {
				e.st = white
			}
		}
		if e != (entry{}) {
			m[p] = e
		}
		return got(cmd, res, ok)
	}
}

// list reads the mail of an identity.
func (s *sys) list(own string) ([]string, error) {
	res, _, err := s.run(-1, "msg", "list", "--id", own)
	if err != nil {
		return nil, err
	}
	if res.Err != nil {
		return nil, vk.Badf("list", "%v", res.Err)
	}
	if res.Out == "" {
		return nil, nil
	}
	return strings.Split(strings.TrimSpace(res.Out), "\n"), nil
}

// mail delivers mail of contact to own, with the key server failing or not.
func mail(own, contact string, fail int) func(vk.Sys, vk.Model) error {
	return func(ss vk.Sys, mm vk.Model) error {
		s, m := ss.(*sys), mm.(model)
		p := pair{own, contact}
		s.n++
		text := fmt.Sprintf("subject %d\n\nbody %d of %s\n", s.n, s.n, contact)
		must(s.db.AddInQueue(own, "", now+int64(s.n), "envelope"))
		i, _, _, _, _, err := s.db.GetInQueue()
		must(err)
		must(s.db.SetInQueue(i, contact+"\n"+text))
		res, _, err := s.run(fail, "msg", "fetch", "--id", own)
		if err != nil {
			return err
		}
		e := m[p]
		if err := got("fetch", res, true); err != nil {
			return err
		}
		for _, o := range owns {
			l, err := s.list(o)
			if err != nil {
				return err
			}
			r.Outcome(fmt.Sprintf("mail of %d: %d", e.st, len(l)))
			if o != own || e.st == black {
				if len(l) > 0 {
					return vk.Badf("mail", "mail shown to %s: %v", o, l)
				}
				continue
			}
			if len(l) != 1 {
				return vk.Badf("mail", "mail of %s (%v) shown to %s: %v", contact, e, o, l)
			}
			f := strings.Split(l[0], "\t")
			if len(f) != 5 || !strings.HasPrefix(f[0], ">N ") || f[2] != contact || f[3] != own || f[4] != fmt.Sprintf("subject %d", s.n) {
				return vk.Badf("mail", "mail listed as %q", l[0])
			}
			num := strings.TrimPrefix(f[0], ">N ")
			res, _, err := s.run(-1, "msg", "read", "--id", o, "--msgnum", num)
			if err != nil {
				return err
			}
			if res.Err != nil || !strings.Contains(res.Out, fmt.Sprintf("body %d of %s", s.n, contact)) {
				return vk.Badf("mail", "mail read as %q, %v", res.Out, res.Err)
			}
			res, _, err = s.run(-1, "msg", "delete", "--id", o, "--msgnum", num)
			if err != nil {
				return err
			}
			if res.Err != nil {
				return vk.Badf("mail", "cannot delete: %v", res.Err)
			}
		}
		if e.st == unknown {
			m[p] = entry{gray, ""}
		}
		return nil
	}
}

// send writes a message to the contact.
func send(own, contact, w string) func(vk.Sys, vk.Model) error {
	return func(ss vk.Sys, mm vk.Model) error {
		s, m := ss.(*sys), mm.(model)
		f := filepath.Join(s.home, "message")
		must(ioutil.WriteFile(f, []byte("subject\n\nbody\n"), 0600))
		res, _, err := s.run(-1, "msg", "add", "--from", own, "--to", w, "--file", f)
		if err != nil {
			return err
		}
		ok := m[pair{own, contact}].st == white
		if err := got("write", res, ok); err != nil {
			return err
		}
		l, err := s.list(own)
		if err != nil {
			return err
		}
		if !ok {
			if len(l) > 0 {
				return vk.Badf("write", "message to write is there: %v", l)
			}
			return nil
		}
		if len(l) != 1 {
			return vk.Badf("write", "messages: %v", l)
		}
		t := strings.Split(l[0], "\t")
		if len(t) != 5 || !strings.HasPrefix(t[0], "<P ") || t[2] != own || t[3] != contact {
			return vk.Badf("write", "message listed as %q", l[0])
		}
		res, _, err = s.run(-1, "msg", "delete", "--id", own, "--msgnum", strings.TrimPrefix(t[0], "<P "))
		if err != nil {
			return err
		}
		if res.Err != nil {
			return vk.Badf("write", "cannot delete: %v", res.Err)
		}
		return nil
	}
}

// check compares all lists.
func check(ss vk.Sys, mm vk.Model) error {
	s, m := ss.(*sys), mm.(model)
	for _, own := range owns {
		for _, st := range []standing{white, black} {
			cmd := map[standing]string{white: "list", black: "blacklist"}[st]
			res, _, err := s.run(-1, "contact", cmd, "--id", own)
			if err != nil {
				return err
			}
			if res.Err != nil {
				return vk.Badf("contacts", "%s: %v", cmd, res.Err)
			}
			var have, want []string
			for _, l := range strings.Split(res.Out, "\n") {
				if l == "" {
					continue
				}
				name, id := "", l
				if i := strings.LastIndex(l, " <"); i >= 0 && strings.HasSuffix(l, ">") {
					name, id = l[:i], l[i+2:len(l)-1]
				}
				if id, err = identity.Map(id); err != nil {
					return vk.Badf("contacts", "%s shows %q", cmd, l)
				}
				have = append(have, name+" "+id)
			}
			for _, c := range contacts {
				if e := m[pair{own, c}]; e.st == st {
					want = append(want, e.name+" "+c)
				}
			}
			sort.Strings(have)
			sort.Strings(want)
			if strings.Join(have, "\n") != strings.Join(want, "\n") {
				return vk.Badf("contacts", "%s of %s shows %q, want %q", cmd, own, have, want)
			}
		}
		for _, c := range contacts {
			e := m[pair{own, c}]
			id, name, t, err := s.db.GetContact(own, c)
			if err != nil {
				return vk.Badf("contacts", "%v", err)
			}
			h := entry{unknown, name}
			if id != "" {
				h.st = map[msgdb.ContactType]standing{msgdb.WhiteList: white, msgdb.GrayList: gray, msgdb.BlackList: black}[t]
			}
			if h != e {
				return vk.Badf("standing", "%s is for %s %v, want %v", c, own, h, e)
			}
		}
	}
	return nil
}

type ops []vk.Op

func (o *ops) add(name string, do func(vk.Sys, vk.Model) error) {
	*o = append(*o, vk.Op{Name: name, Do: do})
}

// all are the operations of a pair.
func (o *ops) all(own, c string, names bool) {
	n := own + " " + c + " "
	o.add(n+"add", add(own, c, c, "", -1))
	o.add(n+"remove", simple("remove", own, c, c))
	o.add(n+"block", simple("block", own, c, c))
	o.add(n+"unblock", simple("unblock", own, c, c))
	o.add(n+"mail", mail(own, c, -1))
	o.add(n+"write", send(own, c, c))
	if !names {
		return
	}
	o.add(n+"add as Bob B.", add(own, c, c, "Bob B.", -1))
	o.add(n+"edit as Bo <b>", edit(own, c, c, "Bo <b>"))
	o.add(n+"edit", edit(own, c, c, ""))
	for i := 0; i < 6; i++ {
		o.add(fmt.Sprintf("%sadd without keys (%d)", n, i), add(own, c, c, "Bob C.", i))
	}
	o.add(n+"mail without keys", mail(own, c, 3))
	for _, w := range written[c][1:] {
		o.add(n+"add as "+w, add(own, c, w, "Bobby", -1))
		o.add(n+"edit as "+w, edit(own, c, w, "Robert"))
		o.add(n+"remove as "+w, simple("remove", own, c, w))
		o.add(n+"block as "+w, simple("block", own, c, w))
		o.add(n+"unblock as "+w, simple("unblock", own, c, w))
		o.add(n+"write as "+w, send(own, c, w))
	}
	for _, w := range written[own][1:] {
		o.add(n+"add to "+w, add(w, c, c, "", -1))
		(*o)[len(*o)-1].Do = func(f func(vk.Sys, vk.Model) error, w string) func(vk.Sys, vk.Model) error {
			return func(s vk.Sys, mm vk.Model) error {
				m := mm.(model)
				p, q := pair{w, c}, pair{own, c}
				if e, ok := m[q]; ok {
					m[p] = e
				}
				err := f(s, m)
				if e, ok := m[p]; ok {
					m[q] = e
				}
				delete(m, p)
				return err
			}
		}((*o)[len(*o)-1].Do, w)
	}
}

func main() {
	r = vk.Start("C26")
	r.Fork()
	clock.Freeze(now)
	fake = enginekit.Dir("fake")
	bin := enginekit.Dir("bin")
	must(os.Symlink(filepath.Join(os.Getenv("VK_BIN"), "c26fake"), filepath.Join(bin, "mutecrypt")))
	must(os.Setenv("PATH", bin))
	must(os.Setenv("VK_FAKE", fake))
	tmpl = enginekit.New(func(db *msgdb.MsgDB) {
		enginekit.Store(db, enginekit.Config(nil), now)
		for _, o := range owns {
			must(db.AddNym(o, o, ""))
		}
	})

	// one pair: all operations, all states; and all histories up to a depth
	var one ops
	one.all(owns[0], contacts[0], true)
	l := &vk.Lockstep{Name: "one contact", Ops: one, Depth: 12, New: open, Check: check, Merge: true}
	if !l.Explore(r) {
		r.Cap("depth")
	}
	l = &vk.Lockstep{Name: "histories of one contact", Ops: one, Depth: r.Pick(2, 3), New: open, Check: check}
	l.Explore(r)
	var few ops
	few.all(owns[0], contacts[0], false)
	l = &vk.Lockstep{Name: "long histories of one contact", Ops: few, Depth: r.Pick(4, 5), New: open, Check: check}
	l.Explore(r)

	// pairs of identities and contacts: all states
	pairs := [][]pair{{{owns[0], contacts[0]}, {owns[0], contacts[1]}}, {{owns[0], contacts[0]}, {owns[1], contacts[0]}},
		{{owns[0], contacts[0]}, {owns[1], contacts[1]}}}
	if r.Thorough() {
		pairs = append(pairs, []pair{{owns[0], contacts[0]}, {owns[0], contacts[1]}, {owns[1], contacts[0]}, {owns[1], contacts[1]}})
	}
	for _, ps := range pairs {
		var many ops
		for _, p := range ps {
			many.all(p.own, p.contact, false)
		}
		l = &vk.Lockstep{Name: fmt.Sprint(ps), Ops: many, Depth: 20, New: open, Check: check, Merge: true}
		if !l.Explore(r) {
			r.Cap("depth")
		}
	}
	if r.Expired() {
		r.Cap("deadline")
	}
	r.Done()
}
