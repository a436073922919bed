package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/util"
	"github.com/mutecomm/mute/verifkit/enginekit"
	"github.com/mutecomm/mute/verifkit/mixkit"
)

// text is the text of a message.
func text(name string) string { return name + "\nthis is " + name + "\n" }

// listed lists an identity's messages: the flags and the other end, by text.
func (h *hist) listed(id string) (l []string, err error) {
	out, ok, err := h.run("", "msg", "list", "--id", id)
	if err != nil {
		return nil, err
	}
	if !ok {
		return nil, h.bad("list", "cannot list: %s", h.last)
	}
	for _, x := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		f := strings.Split(x, "\t")
		if len(f) == 5 {
			l = append(l, strings.Fields(f[0])[0]+" "+f[2]+" "+f[3]+" "+f[4])
		} else if x != "" {
			return nil, h.bad("list", "shows %q", x)
		}
	}
	return l, nil
}

// pending tells whether messages wait for being sent.
func (h *hist) pending() bool {
	if !h.s.sends {
		return false
	}
	steps, count, cmd := h.steps, h.count, h.cmd
	h.cmd = -1
	defer func() { h.steps, h.count, h.cmd = steps, count, cmd }()
	for _, id := range []string{alice, annie} {
		l, err := h.listed(id)
		if err != nil {
			panic(err)
		}
		for _, x := range l {
			if strings.HasPrefix(x, "<P") {
				return true
			}
		}
	}
	// sent ones may still be in the queue
	b, err := msgdb.Open(h.home+"/msgs", []byte(enginekit.Pass))
	must(err)
	defer b.Close()
	for _, id := range []string{alice, annie} {
		must(b.ClearResendOutQueue(id))
		_, m, _, _, _, _, err := b.GetOutQueue(id)
		must(err)
		if m != "" {
			return true
		}
	}
	return false
}

// received returns the texts of the mails the mix took for bob, and who sent
// them, in the order taken.
func (h *hist) received() (l []string, err error) {
	d := enginekit.Dir("bob")
	defer os.RemoveAll(d)
	homes[bob].write(d)
	p := persons[bob]
	for i, m := range h.taken {
		if h.to[i] != hex.EncodeToString(p.pub()[:]) {
			return nil, h.bad("recipient", "mail sent to mailbox %s", h.to[i])
		}
		dec, _, err := mixcrypt.ReceiveFromMix(nymaddr.AddressTemplate{Secret: p.secret[:]}, util.MailboxAddress(p.pub(), server), m)
		if err != nil {
			return nil, h.bad("unreadable", "mail cannot be read: %v", err)
		}
		out, stat, err := tool(d, base64.StdEncoding.EncodeToString(dec), "mutecrypt", "decrypt")
		if err != nil {
			l = append(l, "") // a copy
			continue
		}
		f := strings.Split(strings.Split(stat, "\n")[0], "\t")
		if len(f) != 2 || f[0] != "SENDERIDENTITY:" {
			return nil, h.bad("unreadable", "status %q", stat)
		}
		l = append(l, f[1]+" "+out)
	}
	return l, nil
}

// sent is what must have been sent.
type sent struct{ from, name string }

// verifySent decides a history of sending.
func verifySent(want ...sent) func(h *hist) error {
	return func(h *hist) error {
		l, err := h.received()
		if err != nil {
			return err
		}
		for _, w := range want {
			n := 0
			for _, x := range l {
				if x == w.from+" "+text(w.name) {
					n++
				}
			}
			if n == 0 {
				return h.bad("lost", "%s of %s is not sent: %q, %d refused (%s)", w.name, w.from, l, h.refused, h.last)
			}
			if n > 1 && !h.unsure() {
				return h.bad("twice", "%s of %s is sent %d times", w.name, w.from, n)
			}
		}
		for _, x := range l {
			found := false
			for _, w := range want {
				found = found || x == w.from+" "+text(w.name)
			}
			if x == "" && h.unsure() {
				continue
			}
			if !found {
				return h.bad("strange", "mail %q", x)
			}
		}
		if h.refused > 0 && !h.unsure() {
			return h.bad("token", "a spent token was used")
		}
		for _, id := range []string{alice, annie} {
			l, err := h.listed(id)
			if err != nil {
				return err
			}
			var m []string
			for _, w := range want {
				if w.from == id {
					m = append(m, "<S "+id+" "+bob+" "+w.name)
				}
			}
			sort.Strings(l)
			sort.Strings(m)
			if strings.Join(l, "|") != strings.Join(m, "|") {
				return h.bad("shown", "%s sees %q, want %q", id, l, m)
			}
		}
		// nothing is sent once more
		n := len(h.taken) + h.refused
		_, ok, err := h.run("", "msg", "send", "--all")
		if err != nil {
			return err
		}
		if !ok {
			return h.bad("stuck", "sending nothing: %s", h.last)
		}
		if len(h.taken)+h.refused != n {
			return h.bad("again", "all is sent once more")
		}
		return nil
	}
}

// unsure tells whether a fault leaves the client in doubt about whether the
// mix took a mail or the token was used.
func (h *hist) unsure() bool {
	for _, f := range h.faults {
		k := f.kind()
		if strings.HasPrefix(k, "crash") || strings.HasPrefix(k, "fail at mutectrl") || strings.HasSuffix(k, "at smtp.accepted") ||
			strings.HasSuffix(k, "at muteproto-deliver.end") {
			return true
		}
	}
	return false
}

var homes = map[string]*home{}

// post makes a mail as it lies in the account of p, from the home of another.
func post(d, from, to string, p *person, nym []byte, body string) []byte {
	enc, stat, err := tool(d, body, "mutecrypt", "encrypt", "--from", from, "--to", to, "--nymaddress",
		base64.StdEncoding.EncodeToString(persons[from].nym))
	if err != nil {
		panic(fmt.Sprint(err, ": ", stat))
	}
	b, err := base64.StdEncoding.DecodeString(enc)
	must(err)
	return wrap(nym, b)
}

// wrap sends a message through the mix.
func wrap(nym, msg []byte) []byte {
	mo := client.MessageInput{SenderMinDelay: 120, SenderMaxDelay: 300, Token: []byte("t"), NymAddress: nym, Message: msg}.Create()
	must(mo.Error)
	body, err := client.ReadMail(mo.Message)
	must(err)
	rs, err := mixcrypt.ReceiveMessage(mixkit.Lookup(mixKey), body)
	must(err)
	out, _, err := rs.Send()
	must(err)
	return out
}

type mailAt struct {
	to, from, name string
	body           []byte
	later          bool  // arrives after the disturbed command
	at             int64 // seconds
}

// fetching makes a scenario of fetching.
func fetching(name string, mails []mailAt) *scenario {
	s := &scenario{name: name, home: homes[alice]}
	bring := func(later bool) func(h *hist) {
		return func(h *hist) {
			for _, m := range mails {
				if m.later == later {
					h.arrive(hex.EncodeToString(persons[m.to].pub()[:]), m.body, base+m.at)
				}
			}
		}
	}
	s.begin, s.arrive = bring(false), bring(true)
	s.run = func(h *hist, n int) (bool, error) {
		_, ok, err := h.run("", "msg", "fetch", "--all")
		return ok, err
	}
	s.verify = func(h *hist) error {
		missing := 0
		var known error
		for _, id := range []string{alice, annie} {
			l, err := h.listed(id)
			if err != nil {
				return err
			}
			var want []string
			for _, m := range mails {
				if m.to == id && m.name != "" {
					want = append(want, ">N "+m.from+" "+id+" "+m.name)
				}
			}
			sort.Strings(want)
			sort.Strings(l)
			if strings.Join(l, "|") == strings.Join(want, "|") {
				continue
			}
			sig := "lost"
			missing += len(want) - len(l)
			if missing <= h.gone {
				sig = withKey
			}
			for _, x := range l {
				if strings.Count(strings.Join(l, "|")+"|", x+"|") > strings.Count(strings.Join(want, "|")+"|", x+"|") {
					sig = "too much"
				}
			}
			err = h.bad(sig, "%s sees %q, want %q (%s)", id, l, want, h.last)
			if sig != withKey {
				return err
			}
			known = err
		}
		return known
	}
	return s
}

const base = int64(1600000000)

func scenarios() (l []*scenario) {
	if len(homes) == 0 {
		prepare()
	}
	send := func(name string, h *home, want ...sent) {
		l = append(l, &scenario{name: name, home: h, sends: true, verify: verifySent(want...),
			run: func(h *hist, n int) (bool, error) {
				_, ok, err := h.run("", "msg", "send", "--all")
				return ok, err
			}})
	}
	send("send one", homes["one"], sent{alice, "first"})
	send("send three", homes["three"], sent{alice, "first"}, sent{alice, "second"}, sent{annie, "third"})
	l = append(l, fetching("fetch one", mailsOne), fetching("fetch many", mailsMany))
	l[0].pairs, l[2].pairs = true, true
	return l
}

var mailsOne, mailsMany []mailAt

func prepare() {
	homes[bob] = newHome(nil, bob)
	homes[carol] = newHome(nil, carol)
	homes[alice] = newHome(func(db *msgdb.MsgDB) {}, alice, annie)
	add := func(db *msgdb.MsgDB, from, name string) {
		must(db.AddMessage(from, bob, time.Now().Unix(), true, text(name), false, 120, 300))
	}
	homes["one"] = newHome(func(db *msgdb.MsgDB) {
		tokens(db, 3)
		add(db, alice, "first")
	}, alice, annie)
	homes["three"] = newHome(func(db *msgdb.MsgDB) {
		tokens(db, 5)
		add(db, alice, "first")
		add(db, alice, "second")
		add(db, annie, "third")
	}, alice, annie)

	b, c := enginekit.Dir("bobs"), enginekit.Dir("carols")
	homes[bob].write(b)
	homes[carol].write(c)
	mk := func(to, from, name string, at int64, later bool) mailAt {
		d := b
		if from == carol {
			d = c
		}
		return mailAt{to, from, name, post(d, from, to, persons[to], persons[to].nym, text(name)), later, at}
	}
	junk := func(to string, at int64, body []byte) mailAt { return mailAt{to, "", "", body, false, at} }
	mailsOne = []mailAt{mk(alice, bob, "hello", 1, false), mk(alice, bob, "later", 2, true)}
	os.RemoveAll(b)
	b = enginekit.Dir("bobs")
	homes[bob].write(b)
	mailsMany = []mailAt{
		mk(alice, bob, "one", 1, false),
		// for an address of another identity
		junk(alice, 2, post(b, bob, annie, persons[alice], persons[alice].address(annie), text("other"))),
		mk(alice, bob, "two", 3, false),
		mk(alice, carol, "three", 3, false),
		// encrypted with a key alice never had
		junk(alice, 4, wrap(persons[alice].nym, undecryptable(c))),
		mk(alice, bob, "four", 5, false),
		mk(annie, bob, "five", 5, false),
		mk(alice, bob, "six", 5, true),
		mk(annie, bob, "seven", 6, true),
	}
	os.RemoveAll(b)
	os.RemoveAll(c)
}

// undecryptable is a message from carol to bob.
func undecryptable(d string) []byte {
	enc, stat, err := tool(d, "secret\n", "mutecrypt", "encrypt", "--from", carol, "--to", bob, "--nymaddress",
		base64.StdEncoding.EncodeToString(persons[carol].nym))
	if err != nil {
		panic(stat)
	}
	b, err := base64.StdEncoding.DecodeString(enc)
	must(err)
	return b
}
