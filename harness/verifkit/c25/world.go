package main

import (
	"bufio"
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/def"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/msgdb"
	sgclient "github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	"github.com/mutecomm/mute/verifkit/enginekit"
	"github.com/mutecomm/mute/verifkit/mixkit"
)

const (
	alice = "alice@mute.one" // own
	annie = "annie@mute.one" // own
	bob   = "bob@mute.one"   // a contact
	carol = "carol@mute.one" // unknown
	// server is the account server; its name must be longer than the domain
	// that is cut off.
	server = "127.0.0.1"
)

var people = []string{alice, annie, bob, carol}

var (
	dir    string
	mu     sync.Mutex
	cur    *hist // the history that runs
	ctl    string
	tlsSrv *httptest.Server
	// otherCert is a certificate the client must not accept.
	otherCert tls.Certificate
	smtp   net.Listener
	config []byte
	mixKey = mixkit.NewKey("mix")
	mixes  mixaddr.AddressList
)

// person is someone with an account.
type person struct {
	id      string
	uid     *uid.Message
	ki      *uid.KeyInit
	pkh, pk string // of the published key
	key     ed25519.PrivateKey
	secret  [64]byte
	nym     []byte // nym address
}

var persons = map[string]*person{}

func (p *person) pub() *[32]byte {
	var b [32]byte
	copy(b[:], p.key[32:])
	return &b
}

// address makes an address of p's mailbox for mail to the identity id.
func (p *person) address(id string) []byte {
	t := nymaddr.AddressTemplate{Secret: p.secret[:], MixCandidates: mixes, Expire: time.Now().Unix() + 60*24*3600, MinDelay: 120, MaxDelay: 300}
	a, err := t.NewAddress(util.MailboxAddress(p.pub(), server), cipher.SHA256([]byte(id)))
	must(err)
	return a
}

// home is the content of a home directory.
type home struct{ files map[string][]byte }

func (h *home) write(d string) {
	for n, b := range h.files {
		must(os.MkdirAll(filepath.Dir(filepath.Join(d, n)), 0700))
		must(ioutil.WriteFile(filepath.Join(d, n), b, 0600))
	}
}

func load(d string) *home {
	h := &home{map[string][]byte{}}
	must(filepath.Walk(d, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && !strings.Contains(p, "/log/") {
			n, e := filepath.Rel(d, p)
			must(e)
			h.files[n], err = ioutil.ReadFile(p)
		}
		return err
	}))
	return h
}

// start sets up the servers, the programs and the people.
func start() {
	dir = enginekit.Dir("c25")
	for _, n := range []string{"mutectrl", "mutecrypt", "muteproto"} {
		must(os.Symlink(filepath.Join(os.Getenv("VK_BIN"), "c25helper"), filepath.Join(dir, n)))
	}
	ctl = filepath.Join(dir, "ctl")
	l, err := net.Listen("unix", ctl)
	must(err)
	go accept(l, steer)
	smtp, err = net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go accept(smtp, serveSMTP)
	tlsSrv = httptest.NewUnstartedServer(http.HandlerFunc(serveHTTP))
	tlsSrv.Config.SetKeepAlivesEnabled(false)
	tlsSrv.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	tlsSrv.StartTLS()
	otherCert = selfSigned()

	_, port, _ := net.SplitHostPort(tlsSrv.Listener.Addr().String())
	var c configclient.Config
	must(json.Unmarshal([]byte(enginekit.Config(map[string]string{
		"mixclient.RPCPort": port, "mixclient.AccountServer": server, "keyserver.mute.one": "http://127.0.0.1:1",
	})), &c))
	c.CACert = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: tlsSrv.Certificate().Raw})
	config, err = json.Marshal(&c)
	must(err)
	mixes = mixaddr.AddressList{mixkit.Mix(mixKey, "mix@mix.example", time.Now().Unix()+1000*24*3600)}
	for i, id := range people {
		p := &person{id: id, key: enginekit.Key(byte(10 + i))}
		copy(p.secret[:], mixkit.Bytes("secret"+id, 64))
		p.nym = p.address(id)
		p.uid, err = uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, vk.NewRand("c25"+id))
		must(err)
		p.ki, p.pkh, p.pk, err = p.uid.KeyInit(1, uint64(time.Now().Unix()+80*24*3600), 0, false, "mute.one", "mix@mix.example",
			base64.StdEncoding.EncodeToString(p.nym), vk.NewRand("ki"+id))
		must(err)
		persons[id] = p
	}
}

func accept(l net.Listener, f func(net.Conn)) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go f(c)
	}
}

// newHome makes a home for the given people, with the keys of all; talk is
// done on its message database, if any.
func newHome(talk func(db *msgdb.MsgDB), own ...string) *home {
	d := enginekit.Dir("tmpl")
	defer os.RemoveAll(d)
	n := filepath.Join(d, "keys")
	must(keydb.Create(n, []byte(enginekit.Pass), 1))
	k, err := keydb.Open(n, []byte(enginekit.Pass))
	must(err)
	must(k.AddHashChainEntry("mute.one", 0, hashchain.TestEntry))
	for i, id := range people {
		p := persons[id]
		must(k.AddPublicUID(p.uid, uint64(i)))
		must(k.AddPublicKeyInit(p.ki))
		for _, o := range own {
			if o == id {
				must(k.AddPrivateUID(p.uid))
				must(k.AddPrivateKeyInit(p.ki, p.pkh, p.uid.SigPubKey(), p.pk, ""))
			}
		}
	}
	must(k.Close())
	netDomain, _, _ := def.ConfigParams()
	must(os.Mkdir(filepath.Join(d, "config"), 0700))
	must(ioutil.WriteFile(filepath.Join(d, "config", netDomain), config, 0600))
	if talk != nil {
		enginekit.New(func(db *msgdb.MsgDB) {
			enginekit.Store(db, string(config), time.Now().Unix()+1000*24*3600)
			for _, id := range own {
				p := persons[id]
				must(db.AddNym(id, id, ""))
				must(db.AddContact(id, bob, bob, "Bob", msgdb.WhiteList))
				var key [64]byte
				copy(key[:], p.key)
				must(db.AddAccount(id, "", &key, server, &p.secret, 120, 300))
				must(db.SetAccountTime(id, "", time.Now().Unix()+1000*24*3600))
			}
			talk(db)
		}).Write(d)
	}
	return load(d)
}

// token puts n tokens for the mix into the wallet.
func tokens(db *msgdb.MsgDB, n int) {
	st, err := walletstore.New(db.DB())
	must(err)
	var owner [32]byte
	copy(owner[:], mixes[0].TokenKey)
	for i := 0; i < n; i++ {
		t := fmt.Sprint("token", i)
		must(st.SetToken(sgclient.TokenEntry{Hash: mixkit.B32("hash" + t), Token: mixkit.Bytes(t, 100), OwnerPubKey: &owner,
			Usage: "Message", Expire: time.Now().Unix() + 1000*24*3600}))
	}
}

// mail is mail in an account.
type mail struct {
	id   []byte
	time int64
	nano int64
	body []byte
}

// hist is one history.
type hist struct {
	s      *scenario
	home   string
	cmd    int
	faults []fault
	steps  []string
	count  map[string]int
	last   string // error of the last command
	offset int64
	pgid   int

	accounts map[string][]*mail // by public key in hex
	conns    int                // running programs
	spent    map[string]bool    // tokens
	refused  int                // mails with spent tokens
	taken    [][]byte           // mail relayed to others, in order
	to       []string           // by public key in hex
	counter  map[string]uint64  // of accounts
	strange  []string           // what the servers did not like
	hit      bool               // some fault took place
	opened   bool               // a message was decrypted, but is perhaps not stored yet
	gone     int                // faults while that was so
	data     interface{}
}

func newHist(s *scenario, faults []fault) *hist {
	h := &hist{s: s, home: enginekit.Dir("h"), faults: faults, count: map[string]int{}, accounts: map[string][]*mail{}, spent: map[string]bool{}, counter: map[string]uint64{}}
	s.home.write(h.home)
	mu.Lock()
	cur = h
	mu.Unlock()
	clock.Advance(-clockOffset)
	clockOffset = 0
	if s.begin != nil {
		s.begin(h)
	}
	return h
}

var clockOffset int64

func (h *hist) advance(s int64) {
	h.offset += s
	clockOffset += s
	clock.Advance(s)
}

func (h *hist) close() {
	mu.Lock()
	cur = nil
	mu.Unlock()
	os.RemoveAll(h.home)
}

const withKey = "lost with its key"

// bad is a violation, told apart by the faults.
func (h *hist) bad(sig, f string, args ...interface{}) error {
	var l []string
	for _, x := range h.faults {
		l = append(l, x.kind())
	}
	if len(l) == 0 {
		l = []string{"no fault"}
	}
	sig = h.s.name + ": " + sig
	if !strings.HasSuffix(sig, withKey) {
		sig += ": " + strings.Join(l, ", ")
	}
	return vk.Badf(sig, f, args...)
}

// step tells what must happen at a step of the history that runs.
func step(name string) string {
	mu.Lock()
	defer mu.Unlock()
	h := cur
	if h == nil || h.cmd < 0 {
		return ""
	}
	h.count[name]++
	s := fmt.Sprintf("%s#%d", name, h.count[name])
	h.steps = append(h.steps, s)
	switch name {
	case "mutectrl.start", "mutecrypt-decrypt.start":
		h.opened = false
	case "mutecrypt-decrypt.end":
		h.opened = true
	}
	for _, f := range h.faults {
		if f.cmd == h.cmd && f.step == s {
			h.hit = true
			if h.opened {
				h.gone++
			}
			if f.action == "crash" {
				syscall.Kill(-h.pgid, syscall.SIGKILL)
			}
			return f.action
		}
	}
	return ""
}

// steer answers the programs.
func steer(c net.Conn) {
	mu.Lock()
	h := cur
	if h != nil {
		h.conns++
	}
	mu.Unlock()
	defer func() {
		c.Close()
		mu.Lock()
		if h != nil {
			h.conns--
		}
		mu.Unlock()
	}()
	s := bufio.NewScanner(c)
	for s.Scan() {
		a := map[string]byte{"": 'g', "fail": 'f', "kill": 'k', "crash": 'k'}[step(s.Text())]
		if _, err := c.Write([]byte{a}); err != nil {
			return
		}
	}
}

func env(offset int64) []string {
	_, port, _ := net.SplitHostPort(smtp.Addr().String())
	return []string{"PATH=" + dir, "HOME=" + dir, "TMPDIR=" + dir, "VK_SMTP=" + port, "VK_TLS=" + tlsSrv.Listener.Addr().String(),
		"VK_CLOCK_OFFSET=" + strconv.FormatInt(offset, 10)}
}

// limit is how long a command may take; it is only reached if it hangs.
const limit = 120 * time.Second

// run runs a command of mutectrl. The error tells that it hangs.
func (h *hist) run(stdin string, args ...string) (out string, ok bool, err error) {
	c := exec.Command(filepath.Join(dir, "mutectrl"), append([]string{"--homedir", h.home, "--logdir", filepath.Join(h.home, "log"),
		"--loglevel", "critical", "--offline"}, args...)...)
	c.Env = append(env(h.offset), "VK_CTL="+ctl)
	c.Dir = h.home
	var stdout, stderr bytes.Buffer
	c.Stdin, c.Stdout, c.Stderr = strings.NewReader(stdin), &stdout, &stderr
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	pr, pw, err := os.Pipe()
	must(err)
	pw.Write([]byte(enginekit.Pass + "\n"))
	pw.Close()
	null, err := os.Open(os.DevNull)
	must(err)
	c.ExtraFiles = []*os.File{pr, null}
	mu.Lock() // the programs do nothing before their group is known
	err = c.Start()
	must(err)
	h.pgid = c.Process.Pid
	mu.Unlock()
	pr.Close()
	null.Close()
	r.Trans()
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		syscall.Kill(-h.pgid, syscall.SIGKILL)
		<-done
		return "", false, h.bad("hang", "%v does not end", args)
	}
	syscall.Kill(-h.pgid, syscall.SIGKILL)
	for t := time.Now(); ; time.Sleep(time.Millisecond) { // until all programs are gone
		mu.Lock()
		n := h.conns
		mu.Unlock()
		if n == 0 {
			break
		}
		if time.Since(t) > limit {
			panic("programs remain")
		}
	}
	h.last = strings.TrimSpace(stderr.String())
	if strings.Contains(h.last, "goroutine ") {
		return "", false, h.bad("panic", "%v: %s", args, h.last)
	}
	return stdout.String(), err == nil, nil
}

// tool runs another program for another home.
func tool(homedir, stdin, prog string, args ...string) (out, status string, err error) {
	c := exec.Command(filepath.Join(dir, prog), append([]string{"--homedir", homedir, "--logdir", filepath.Join(homedir, "log"), "--loglevel", "critical"}, args...)...)
	c.Env = env(clockOffset)
	c.Dir = homedir
	var stdout, stderr bytes.Buffer
	c.Stdin, c.Stdout, c.Stderr = strings.NewReader(stdin), &stdout, &stderr
	pr, pw, err := os.Pipe()
	must(err)
	pw.Write([]byte(enginekit.Pass))
	pw.Close()
	c.ExtraFiles = []*os.File{pr}
	err = c.Run()
	pr.Close()
	return stdout.String(), strings.TrimSpace(stderr.String()), err
}

// The mix.

// relay takes a mail to the mix; refused tells that its token is spent.
func (h *hist) relay(data []byte) (refused bool, err error) {
	body, err := client.ReadMail(data)
	if err != nil {
		return false, err
	}
	rs, err := mixcrypt.ReceiveMessage(mixkit.Lookup(mixKey), body)
	if err != nil {
		return false, err
	}
	t := string(rs.MixHeader.Token)
	if h.spent[t] {
		h.refused++
		return true, nil
	}
	out, to, err := rs.Send()
	if err != nil {
		return false, err
	}
	h.spent[t] = true
	h.taken = append(h.taken, out)
	h.to = append(h.to, strings.Split(to, "@")[0])
	return false, nil
}

func (h *hist) note(f string, args ...interface{}) {
	h.strange = append(h.strange, fmt.Sprintf(f, args...))
}

func selfSigned() tls.Certificate {
	pub, priv, err := ed25519.GenerateKey(rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)},
		NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0)}
	b, err := x509.CreateCertificate(rand.Reader, t, t, pub, priv)
	must(err)
	return tls.Certificate{Certificate: [][]byte{b}, PrivateKey: priv}
}

func serveSMTP(c net.Conn) {
	defer c.Close()
	rd := bufio.NewReader(c)
	var offered, secure bool
	// at is a step; false ends the connection
	at := func(name, good string) (ok, went bool) {
		switch a := step(name); a {
		case "":
			fmt.Fprintf(c, "%s\r\n", good)
			return true, true
		case "drop", "crash":
			return false, false
		default:
			fmt.Fprintf(c, "%s\r\n", a)
			return true, false
		}
	}
	if ok, _ := at("smtp.connect", "220 mix"); !ok {
		return
	}
	for {
		l, err := rd.ReadString('\n')
		if err != nil {
			return
		}
		ok := true
		switch v := strings.ToUpper(strings.TrimSpace(l)); {
		case strings.HasPrefix(v, "EHLO") && !secure:
			var went bool
			if ok, went = at("smtp.ehlo", "250-mix\r\n250 STARTTLS"); went {
				offered = true
			}
		case strings.HasPrefix(v, "EHLO"), strings.HasPrefix(v, "HELO"), strings.HasPrefix(v, "RSET"):
			fmt.Fprintf(c, "250 mix\r\n")
		case v == "STARTTLS" && offered && !secure:
			cert := tlsSrv.TLS.Certificates[0]
			switch a := step("smtp.tls"); a {
			case "":
			case "drop", "crash":
				return
			case "other certificate":
				cert = otherCert
			default:
				fmt.Fprintf(c, "%s\r\n", a)
				continue
			}
			fmt.Fprintf(c, "220 go\r\n")
			t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{cert}})
			if t.Handshake() != nil {
				return
			}
			secure, c, rd = true, t, bufio.NewReader(t)
		case !secure && !strings.HasPrefix(v, "QUIT"):
			mu.Lock()
			if cur != nil {
				cur.note("sends %q in the clear", v)
			}
			mu.Unlock()
			return
		case strings.HasPrefix(v, "MAIL"):
			ok, _ = at("smtp.mail", "250 ok")
		case strings.HasPrefix(v, "RCPT"):
			ok, _ = at("smtp.rcpt", "250 ok")
		case strings.HasPrefix(v, "DATA"):
			var went bool
			if ok, went = at("smtp.data", "354 go"); !went {
				break
			}
			var data []byte
			for {
				l, err := rd.ReadString('\n')
				if err != nil {
					return
				}
				if l == ".\r\n" {
					break
				}
				data = append(data, strings.TrimPrefix(l, ".")...)
			}
			switch a := step("smtp.body"); a {
			case "":
				mu.Lock()
				refused, err := false, error(nil)
				if cur != nil {
					refused, err = cur.relay(data)
					if err != nil {
						cur.note("the mix cannot read a mail: %v", err)
					}
				}
				mu.Unlock()
				switch {
				case refused:
					fmt.Fprintf(c, "%s\r\n", final)
				case err != nil:
					fmt.Fprintf(c, "550 cannot read\r\n")
				default:
					ok, _ = at("smtp.accepted", "250 taken")
				}
			case "drop", "crash":
				return
			default:
				fmt.Fprintf(c, "%s\r\n", a)
			}
		case strings.HasPrefix(v, "QUIT"):
			at("smtp.quit", "221 bye")
			return
		default:
			fmt.Fprintf(c, "500 what\r\n")
		}
		if !ok {
			return
		}
	}
}

// The keys of the mixes and the account server.

func serveHTTP(w http.ResponseWriter, q *http.Request) {
	b, _ := ioutil.ReadAll(q.Body)
	var name string
	var req struct {
		Method string
		Params struct {
			AuthToken       string
			LastReceiveTime int64
		}
		Id json.RawMessage
	}
	switch q.URL.Path {
	case "/keys":
		name = "keys"
	case "/account":
		name = "list"
		must(json.Unmarshal(b, &req))
	case "/message":
		name = "message"
	default:
		http.Error(w, "no", 404)
		return
	}
	switch step("http." + name) {
	case "drop", "crash":
		c, _, err := w.(http.Hijacker).Hijack()
		must(err)
		c.Close()
		return
	case "500":
		http.Error(w, "internal error", 500)
		return
	case "rubbish":
		io.WriteString(w, "*** rubbish ***")
		return
	case "replay":
		// as if the account's counter had gone on meanwhile
		mu.Lock()
		v, _ := url.ParseQuery(string(b))
		tok := req.Params.AuthToken
		if name == "message" {
			tok = v.Get("authtoken")
		}
		if cur != nil {
			pub, _ := cur.owner(tok, true)
			cur.counter[pub] += 1000000000000
		}
		mu.Unlock()
	case "error":
		switch name {
		case "list":
			fmt.Fprintf(w, `{"jsonrpc":"2.0","error":{"code":-32000,"message":"try again"},"id":%s}`, req.Id)
		default:
			io.WriteString(w, "ERROR: try again")
		}
		return
	}
	mu.Lock()
	defer mu.Unlock()
	h := cur
	if h == nil {
		return
	}
	switch name {
	case "keys":
		must(json.NewEncoder(w).Encode(mixaddr.AddressStatement{Addresses: mixes}))
	case "list":
		if req.Method != "AccountServer.ListMessages" {
			h.note("method %s", req.Method)
			return
		}
		pub, e := h.owner(req.Params.AuthToken, false)
		if e != "" {
			fmt.Fprintf(w, `{"jsonrpc":"2.0","error":{"code":-32000,"message":%q},"id":%s}`, e, req.Id)
			return
		}
		l := []map[string]interface{}{}
		for _, m := range h.accounts[pub] {
			if m.time >= req.Params.LastReceiveTime {
				l = append([]map[string]interface{}{{"MessageID": hex.EncodeToString(m.id), "ReceiveTime": m.time, "ReceiveTimeNano": m.nano,
					"ReadTime": 0, "UserKey": pub}}, l...)
			}
		}
		if len(l) == 0 {
			fmt.Fprintf(w, `{"jsonrpc":"2.0","error":{"code":-32000,"message":"accountdb: Nothing found"},"id":%s}`, req.Id)
			return
		}
		j, err := json.Marshal(map[string]interface{}{"Messages": l})
		must(err)
		fmt.Fprintf(w, `{"jsonrpc":"2.0","result":%s,"id":%s}`, j, req.Id)
	case "message":
		v, err := url.ParseQuery(string(b))
		must(err)
		pub, e := h.owner(v.Get("authtoken"), false)
		if e != "" {
			io.WriteString(w, "ERROR: "+e)
			return
		}
		for _, m := range h.accounts[pub] {
			if hex.EncodeToString(m.id) == v.Get("messageid") {
				w.Write(client.WriteMail("mix@mix.example", "you", m.body))
				return
			}
		}
		h.note("message %s of %s asked for", v.Get("messageid"), pub)
		io.WriteString(w, "ERROR: no such message")
	}
}

// owner tells whose account is accessed, or the error to answer.
func (h *hist) owner(token string, look bool) (pub, e string) {
	b, err := base64.StdEncoding.DecodeString(token)
	must(err)
	p, _, n, err := walletauth.AuthToken(b).CheckToken()
	if err != nil {
		h.note("access to an account: %v", err)
		return "", "bad token"
	}
	pub = hex.EncodeToString(p[:])
	switch {
	case look:
	case n <= h.counter[pub]:
		return pub, fmt.Sprintf("ErrReplay: %d", h.counter[pub])
	default:
		h.counter[pub] = n
	}
	return pub, ""
}

// arrive puts a mail into an account.
func (h *hist) arrive(pub string, body []byte, t int64) {
	mu.Lock()
	defer mu.Unlock()
	n := len(h.accounts[pub])
	h.accounts[pub] = append(h.accounts[pub], &mail{id: mixkit.B32(fmt.Sprint("id", pub, n)), time: t, nano: t*1e9 + int64(n), body: body})
}
