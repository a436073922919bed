package main

import (
	"bufio"
	"bytes"
	"crypto/hmac"
	"crypto/md5"
	"crypto/tls"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"net"
	"strings"
	"sync"

	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/smtpclient"
	vk "github.com/mutecomm/mute/verifkit"
)

// script is how a mail server behaves.
type script struct {
	greet    string   // "" for a good answer
	ehlo     string   // answer to EHLO before TLS, "" for a good one
	helo     string   // answer to HELO
	offers   []string // before TLS
	starttls string
	cert     int // 0 of the CA, 1 another, 2 the connection ends
	ehlo2    string
	offers2  []string // with TLS
	auth     string
	mail     string
	rcpt     string
	data     string
	body     string
	rset     string
	quit     string
}

const drop = "drop"

// session is what happened at the server.
type session struct {
	script
	mu       sync.Mutex
	conns    int
	clear    []string // lines received without TLS
	authed   string   // credentials presented
	authTLS  bool
	from, to string
	mailTLS  bool
	got      []byte // mail received
	whole    bool   // mail received up to its end
	taken    bool   // and accepted
	failed   string // first answer that was not a good one, to a command that matters
	done     chan bool
}

func (s *session) serve(c net.Conn, ca *authority) {
	defer c.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.conns++
	rd := bufio.NewReader(c)
	secure := false
	ehlos := 0
	// say answers a command; false ends the connection
	say := func(good, is string, matters bool) bool {
		if is == "" {
			fmt.Fprintf(c, "%s\r\n", good)
			return true
		}
		if matters && s.failed == "" {
			s.failed = is
		}
		if is == drop {
			return false
		}
		fmt.Fprintf(c, "%s\r\n", is)
		return true
	}
	lines := func(offers []string) string {
		l := append([]string{"mx"}, offers...)
		for i := range l {
			sep := "-"
			if i == len(l)-1 {
				sep = " "
			}
			l[i] = "250" + sep + l[i]
		}
		return strings.Join(l, "\r\n")
	}
	if !say("220 mx", s.greet, true) {
		return
	}
	for {
		l, err := rd.ReadString('\n')
		if err != nil {
			return
		}
		l = strings.TrimRight(l, "\r\n")
		if !secure {
			s.clear = append(s.clear, l)
		}
		v := strings.ToUpper(l)
		ok := true
		switch {
		case strings.HasPrefix(v, "EHLO"):
			ehlos++
			if secure {
				ok = say(lines(s.offers2), s.ehlo2, true)
			} else {
				ok = say(lines(s.offers), s.ehlo, false)
			}
		case strings.HasPrefix(v, "HELO"):
			ok = say("250 mx", s.helo, true)
		case v == "STARTTLS":
			if ok = say("220 go", s.starttls, true); !ok || s.starttls != "" {
				break
			}
			if s.cert == 2 {
				s.failed = drop
				return
			}
			cert := ca.leaf(c.LocalAddr())
			if s.cert == 1 {
				cert = other.leaf(c.LocalAddr())
			}
			t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{cert}})
			if t.Handshake() != nil {
				if s.failed == "" {
					s.failed = "handshake"
				}
				return
			}
			secure, c, rd = true, t, bufio.NewReader(t)
		case strings.HasPrefix(v, "AUTH"):
			s.authTLS = secure
			f := strings.Fields(l)
			s.authed = "?"
			if len(f) == 3 && f[1] == "PLAIN" {
				b, _ := base64.StdEncoding.DecodeString(f[2])
				s.authed = string(b)
			} else if len(f) == 2 && f[1] == "CRAM-MD5" {
				fmt.Fprintf(c, "334 %s\r\n", base64.StdEncoding.EncodeToString([]byte("challenge")))
				l, err := rd.ReadString('\n')
				if err != nil {
					return
				}
				if !secure {
					s.clear = append(s.clear, strings.TrimRight(l, "\r\n"))
				}
				b, _ := base64.StdEncoding.DecodeString(strings.TrimSpace(l))
				s.authed = "CRAM " + string(b)
			}
			ok = say("235 welcome", s.auth, true)
		case strings.HasPrefix(v, "MAIL"):
			s.from = l
			s.mailTLS = secure
			ok = say("250 ok", s.mail, true)
		case strings.HasPrefix(v, "RCPT"):
			s.to = l
			ok = say("250 ok", s.rcpt, true)
		case v == "DATA":
			if ok = say("354 go", s.data, true); !ok || s.data != "" {
				break
			}
			s.got = []byte{}
			for {
				l, err := rd.ReadString('\n')
				if err != nil {
					return
				}
				if l == ".\r\n" {
					break
				}
				s.got = append(s.got, strings.TrimPrefix(l, ".")...)
			}
			s.whole = true
			if ok = say("250 taken", s.body, true); s.body == "" {
				s.taken = true
			}
		case v == "RSET":
			ok = say("250 ok", s.rset, false)
		case v == "QUIT":
			say("221 bye", s.quit, false)
			return
		case v == "*":
			fmt.Fprintf(c, "501 cancelled\r\n")
		default:
			fmt.Fprintf(c, "500 what\r\n")
		}
		if !ok {
			return
		}
	}
}

// mailbox routes connections to sessions by the address called.
var smtpPort int

// smtpConf is how a client is configured.
type smtpConf struct {
	ca    int // 0 none, 1 the CA, 2 another CA, 3 rubbish
	noSSL bool
	user  bool
	helo  bool
}

func (c smtpConf) String() string {
	return fmt.Sprintf("CA %s, noSSL %v, user %v, helo %v", []string{"none", "own", "other", "rubbish"}[c.ca], c.noSSL, c.user, c.helo)
}

func (c smtpConf) cert() []byte {
	switch c.ca {
	case 1:
		return ca.pem
	case 2:
		return other.pem
	case 3:
		return []byte("rubbish")
	}
	return nil
}

func has(l []string, s string) bool {
	for _, x := range l {
		if strings.HasPrefix(x, s) {
			return true
		}
	}
	return false
}

// class of an answer: 5 for good, 4 for now, 0 unknown
func class(s string) int {
	if len(s) >= 3 && s[0] == '5' {
		return 5
	}
	if len(s) >= 3 && s[0] >= '2' && s[0] <= '4' {
		return 4
	}
	return 0
}

const user, password = "someone", "secret"

func checkMail(c smtpConf, sc script, mail []byte) func() error {
	return func() error {
		s := &session{script: sc}
		ip := register(s)
		defer unregister(ip)
		mc := smtpclient.MailClient{CACert: c.cert(), NoSSL: c.noSSL, Port: smtpPort, SmartHost: ip}
		if c.user {
			mc.User, mc.Password = user, password
		}
		if c.helo {
			mc.HeloHost = "me.example"
		}
		err := mc.SendMail("to@mute.one", "from@mute.one", mail)
		s.mu.Lock()
		defer s.mu.Unlock()
		if s.conns != 1 {
			return vk.Badf("connections", "%d connections", s.conns)
		}
		// nothing may go out in the clear
		if c.ca != 0 && !c.noSSL {
			for _, l := range s.clear {
				if v := strings.ToUpper(l); !strings.HasPrefix(v, "EHLO") && !strings.HasPrefix(v, "HELO") && v != "STARTTLS" && v != "QUIT" && v != "RSET" {
					return vk.Badf("clear", "sends %q in the clear", l)
				}
			}
			if s.got != nil && (!s.mailTLS || s.cert+1 != c.ca) {
				return vk.Badf("clear", "the mail went to a server without certificate")
			}
		}
		if c.ca == 0 && !c.noSSL && has(sc.offers, "STARTTLS") && sc.ehlo == "" && s.got != nil && !s.mailTLS {
			return vk.Badf("no-tls", "TLS was offered and not used")
		}
		if s.authed != "" {
			mac := hmac.New(md5.New, []byte(password))
			mac.Write([]byte("challenge"))
			cram := "CRAM " + user + " " + hex.EncodeToString(mac.Sum(nil))
			if !c.user || s.authed != "\x00"+user+"\x00"+password && s.authed != cram {
				return vk.Badf("auth", "credentials %q", s.authed)
			}
		}
		if c.user && s.got != nil && s.authed == "" {
			return vk.Badf("auth", "the mail goes out without authentication")
		}
		if s.whole {
			if s.from != "MAIL FROM:<from@mute.one>" && s.from != "MAIL FROM:<from@mute.one> BODY=8BITMIME" || s.to != "RCPT TO:<to@mute.one>" {
				return vk.Badf("envelope", "%q %q", s.from, s.to)
			}
			want := mail
			if !bytes.HasSuffix(want, []byte("\r\n")) {
				want = append(append([]byte{}, want...), "\r\n"...)
			}
			if !bytes.Equal(s.got, want) {
				return vk.Badf("content", "the server received %q", s.got)
			}
		} else if s.taken {
			return vk.Badf("content", "taken too early")
		}
		// what is reported
		if s.taken != (err == nil) {
			return vk.Badf("result", "mail taken by the server: %v, reported: %v (%v)", s.taken, err, mc.LastError)
		}
		if err == nil {
			r.Outcome("taken")
			return nil
		}
		if s.failed == "" {
			// the client gave up itself: no way to send safely, or as asked
			r.Outcome("gave up")
			return nil
		}
		cl := class(s.failed)
		if s.failed == sc.greet {
			cl = 4
		}
		if (err == smtpclient.ErrFinal) != (cl == 5) {
			return vk.Badf("final", "answer %q reported as %v (%v)", s.failed, err, mc.LastError)
		}
		r.Outcome(fmt.Sprintf("answer class %d", cl))
		return nil
	}
}

// checkDeliver decides one delivery of a message and its repetitions.
func checkDeliver(c smtpConf, scs []script, mail []byte) func() error {
	return func() error {
		mo := &client.MessageOutput{Message: mail, To: "to@mute.one", From: "from@mute.one", RevokeID: []byte("id"), SMTPPort: smtpPort, CACert: c.cert(), Resend: true}
		taken := 0
		for n, sc := range scs {
			s := &session{script: sc}
			ip := register(s)
			if mo.Resend {
				mo.SmartHost = ip
			}
			was := mo.Resend
			out, err := mo.Deliver()
			unregister(ip)
			s.mu.Lock()
			if s.taken {
				taken++
			}
			conns, now := s.conns, s.taken
			s.mu.Unlock()
			if !was {
				if conns != 0 {
					return vk.Badf("deliver", "delivery %d: tried again after the end", n)
				}
				if taken > 0 && err != client.ErrAlreadySent || err == nil {
					return vk.Badf("deliver", "delivery %d: reported as %v", n, err)
				}
			} else {
				if now != (err == nil) {
					return vk.Badf("deliver", "delivery %d: taken: %v, reported as %v", n, now, err)
				}
				if now && (out.Resend || out.Message != nil || out.To != "" || string(out.RevokeID) != "id") {
					return vk.Badf("deliver", "delivery %d: left over %v", n, out)
				}
				if !now && out.Resend && (!bytes.Equal(out.Message, mail) || out.To != "to@mute.one" || out.From != "from@mute.one" || out.SMTPPort != smtpPort || !bytes.Equal(out.CACert, c.cert())) {
					return vk.Badf("deliver", "delivery %d: what has to be sent again changed", n)
				}
				if out.Resend != (err != nil && class(s.failed) != 5) {
					return vk.Badf("deliver", "delivery %d: answer %q, to be tried again: %v", n, s.failed, out.Resend)
				}
			}
			// over a restart
			if mo = out.Marshal().Unmarshal(); mo.Resend != out.Resend || (mo.Message == nil) != (out.Message == nil) {
				return vk.Badf("deliver", "delivery %d: changes when stored", n)
			}
		}
		if taken > 1 {
			return vk.Badf("deliver", "taken %d times", taken)
		}
		return nil
	}
}

func mails() {
	answers := []string{"421 later", "450 try again", "550 no", "554 5.7.1 never", "500 what", "599 z", "499 hm", "550 ", "450 ", "rubbish", drop}
	short := []string{"421 later", "550 no", drop}
	base := []string{"8BITMIME", "SIZE 1000000"}
	with := func(l ...string) []string { return append(append([]string{}, base...), l...) }
	plain := with("AUTH LOGIN PLAIN")
	offers := [][]string{nil, with("STARTTLS"), plain, with("STARTTLS", "AUTH CRAM-MD5 PLAIN"), with("AUTH CRAM-MD5"), with("AUTH LOGIN")}
	var scs []script
	add := func(s script) { scs = append(scs, s) }
	// every set of offers before and with TLS, certificate and failing step
	for _, o := range offers {
		for _, o2 := range offers {
			for cert := 0; cert < 3; cert++ {
				if !has(o, "STARTTLS") && (cert > 0 || o2 != nil) {
					continue
				}
				s := script{offers: o, offers2: o2, cert: cert}
				add(s)
				if cert > 0 {
					continue
				}
				for _, a := range answers {
					for step := 0; step < 12; step++ {
						t := s
						switch step {
						case 0:
							t.greet = a
						case 1:
							t.ehlo, t.helo = a, a
						case 2:
							t.ehlo = a
						case 3:
							t.starttls = a
						case 4:
							t.ehlo2 = a
							t.helo = a
						case 5:
							t.auth = a
						case 6:
							t.mail = a
						case 7:
							t.rcpt = a
						case 8:
							t.data = a
						case 9:
							t.body = a
						case 10:
							t.quit = a
						case 11:
							t.body, t.rset, t.quit = a, a, a
						}
						add(t)
					}
				}
			}
		}
	}
	var confs []smtpConf
	for cav := 0; cav < 4; cav++ {
		for _, u := range []bool{false, true} {
			confs = append(confs, smtpConf{cav, false, u, cav%2 == 0})
		}
	}
	confs = append(confs, smtpConf{0, true, false, false}, smtpConf{1, true, true, true})
	text := client.WriteMail("from@mute.one", "to@mute.one", bytes.Repeat([]byte("the message "), 30))
	type job struct {
		d string
		f func() error
	}
	var jobs []job
	for _, c := range confs {
		for i, s := range scs {
			if c.noSSL && has(s.offers, "STARTTLS") && i%7 != 0 && !r.Thorough() {
				continue
			}
			jobs = append(jobs, job{fmt.Sprintf("%v; server %+v", c, s), checkMail(c, s, text)})
		}
	}
	// contents
	for _, m := range []string{"", "x", "x\r\n", ".\r\n", "..\r\n.\r\n", "a\r\n.\r\nMAIL FROM:<x>\r\n", "a\r\n.b\r\n\r\n"} {
		jobs = append(jobs, job{fmt.Sprintf("mail %q", m), checkMail(smtpConf{1, false, false, false}, script{offers: with("STARTTLS")}, []byte(m))})
	}
	// histories of deliveries
	var hist []script
	ok := script{offers: with("STARTTLS")}
	hist = append(hist, ok)
	for step := 0; step < 7; step++ {
		for _, a := range short {
			s := ok
			switch step {
			case 0:
				s.greet = a
			case 1:
				s.mail = a
			case 2:
				s.rcpt = a
			case 3:
				s.data = a
			case 4:
				s.body = a
			case 5:
				s.quit = a
			case 6:
				s.starttls = a
			}
			if step == 0 && class(a) == 5 {
				continue // a greeting is never final
			}
			hist = append(hist, s)
		}
	}
	vk.Sequences(len(hist), 2, func(seq []int) {
		var l []script
		for _, i := range seq {
			l = append(l, hist[i])
		}
		l = append(l, ok, ok)
		jobs = append(jobs, job{fmt.Sprintf("deliveries %v %+v", seq, l), checkDeliver(smtpConf{ca: 1}, l, text)})
	})
	r.Parallel(len(jobs), func(i int) {
		r.Eval(jobs[i].d)
		r.Trace()
		r.Case(jobs[i].d, jobs[i].f)
	})
	r.Note("mail dialogues", len(jobs))
}
