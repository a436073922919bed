// C27: the local web application, as the program a user starts.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/mutecomm/mute/msgdb"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/enginekit"
)

var r *vk.R

const (
	marker  = "MARKER-OF-THE-APPLICATION"
	outside = "MARKER-OF-A-FILE-OUTSIDE"
)

var docroot string

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// files makes the document root and what surrounds it.
func files() {
	base := enginekit.Dir("www")
	docroot = filepath.Join(base, "docroot")
	must(os.MkdirAll(filepath.Join(docroot, "sub"), 0700))
	for name, text := range map[string]string{
		"index.html": marker, "data.json": marker, "sub/" + marker + ".js": marker, "login.html": marker,
	} {
		must(ioutil.WriteFile(filepath.Join(docroot, name), []byte(text), 0600))
	}
	must(ioutil.WriteFile(filepath.Join(base, "outside.txt"), []byte(outside), 0600))
}

// home kinds
const (
	good = iota
	noDB
	badConfig
	noConfigEntry
	outdatedConfig
	outdatedProgram
	noKey
	kinds
)

var kindName = [...]string{"good", "no database", "unreadable configuration", "incomplete configuration",
	"outdated configuration", "outdated program", "no key file"}

var tmpl [kinds]*enginekit.Template

func templates() {
	for k := 0; k < kinds; k++ {
		k := k
		tmpl[k] = enginekit.New(func(db *msgdb.MsgDB) {
			conf, t := enginekit.Config(nil), time.Now().Unix()
			switch k {
			case badConfig:
				conf = "{"
			case noConfigEntry:
				conf = enginekit.Config(map[string]string{"mix.MaxDelay": ""})
			case outdatedConfig:
				t -= 400 * 86400
			case outdatedProgram:
				conf = enginekit.Config(map[string]string{"release.Commit": "x",
					"release.Date": "Thu Jan 1 00:00:00 2099 +0000"})
			}
			enginekit.Store(db, conf, t)
		})
	}
}

// server is a running program.
type server struct {
	kind int
	home string
	bin  string
	cmd  *exec.Cmd
	addr string
	mu   sync.Mutex
	text []string
	done chan struct{}
}

func (s *server) start() error {
	s.cmd = exec.Command(filepath.Join(os.Getenv("VK_BIN"), s.bin), "--homedir", s.home, "--logdir",
		filepath.Join(s.home, "log"), "--offline", "app", "--docroot", docroot, "--http", "127.0.0.1:0")
	s.cmd.Env = []string{"PATH=/nonexistent", "HOME=" + s.home, "TMPDIR=" + s.home,
		"GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=0"}
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer null.Close()
	s.cmd.ExtraFiles = []*os.File{null, null}
	p, err := s.cmd.StderrPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.done = make(chan struct{})
	addr := make(chan string, 1)
	go func() {
		defer close(s.done)
		b := bufio.NewScanner(p)
		for b.Scan() {
			s.mu.Lock()
			s.text = append(s.text, b.Text())
			s.mu.Unlock()
			if i := strings.Index(b.Text(), "http://"); i >= 0 {
				u, err := url.Parse(b.Text()[i:])
				if err == nil {
					select {
					case addr <- u.Host:
					default:
					}
				}
			}
		}
	}()
	select {
	case s.addr = <-addr:
		return nil
	case <-s.done:
		s.cmd.Wait()
		return fmt.Errorf("the program ended: %s", s.said())
	}
}

func (s *server) said() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return strings.Join(s.text, "\n")
}

func (s *server) kill() {
	s.cmd.Process.Kill()
	<-s.done
	s.cmd.Wait()
}

func newServer(kind int, bin string) (*server, error) {
	s := &server{kind: kind, home: tmpl[kind].Home(), bin: bin}
	switch kind {
	case noDB:
		os.Remove(filepath.Join(s.home, "msgs.db"))
	case noKey:
		os.Remove(filepath.Join(s.home, "msgs.key"))
	}
	if err := s.start(); err != nil {
		os.RemoveAll(s.home)
		return nil, err
	}
	return s, nil
}

func (s *server) close() {
	s.kill()
	os.RemoveAll(s.home)
}

// answer is what came back.
type answer struct {
	status int
	cookie []*http.Cookie
	body   string
	loc    string
}

var errDropped = fmt.Errorf("no answer")

func (s *server) raw(text string) (*answer, error) {
	c, err := net.Dial("tcp", s.addr)
	if err != nil {
		return nil, errDropped
	}
	defer c.Close()
	if _, err := c.Write([]byte(text)); err != nil {
		return nil, errDropped
	}
	method := strings.SplitN(text, " ", 2)[0]
	resp, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
	if err != nil {
		return nil, errDropped
	}
	defer resp.Body.Close()
	b, _ := ioutil.ReadAll(resp.Body)
	return &answer{resp.StatusCode, resp.Cookies(), string(b), resp.Header.Get("Location")}, nil
}

func request(method, path string, head []string, body string) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n", method, path)
	for _, h := range head {
		b.WriteString(h + "\r\n")
	}
	if body != "" {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(body))
	}
	b.WriteString("\r\n" + body)
	return b.String()
}

// op is something that may change who is logged in.
type op struct {
	name string
	text string // of the request
	ok   bool   // whether it is a proper login
	may  bool   // whether it may be treated as one
	new  bool   // restart
}

const formType = "Content-Type: application/x-www-form-urlencoded"

func ops() (list []op) {
	pass := url.QueryEscape(enginekit.Pass)
	form := func(name, body string, ok, may bool) {
		list = append(list, op{name: name, text: request("POST", "/login", []string{formType}, body), ok: ok, may: may})
	}
	form("right passphrase", "passphrase="+pass, true, true)
	form("wrong passphrase", "passphrase=wrong", false, false)
	form("empty passphrase", "passphrase=", false, false)
	form("no passphrase", "x=y", false, false)
	form("wrong, then right", "passphrase=wrong&passphrase="+pass, false, true)
	form("prefix of the passphrase", "passphrase="+pass[:4], false, false)
	form("passphrase and more", "passphrase="+pass+"x", false, false)
	form("passphrase, other case", "passphrase="+strings.ToUpper(pass), false, false)
	// not after it: PBKDF2 does not tell a passphrase from one with zero
	// bytes appended
	form("zero and passphrase", "passphrase=%00"+pass, false, false)
	form("malformed form", "passphrase=%zz", false, false)
	form("no form", "", false, false)
	add := func(name, text string, may bool) {
		list = append(list, op{name: name, text: text, may: may})
	}
	add("empty cookie", request("GET", "/", []string{"Cookie: mute="}, ""), false)
	add("HEAD login", request("HEAD", "/login", nil, ""), false)
	add("login without type", request("POST", "/login", nil, "passphrase="+pass), true)
	add("multipart", request("POST", "/login", []string{"Content-Type: multipart/form-data; boundary=x"},
		"--x\r\nContent-Disposition: form-data; name=\"passphrase\"\r\n\r\nwrong\r\n--x--\r\n"), false)
	add("PUT", request("PUT", "/login", []string{formType}, "passphrase=wrong"), false)
	add("query", request("POST", "/login?passphrase=wrong", []string{formType}, "x=y"), false)
	add("GET with passphrase", request("GET", "/login?passphrase="+pass, nil, ""), true)
	add("GET with wrong passphrase", request("GET", "/login?passphrase=wrong", nil, ""), false)
	add("login page", request("GET", "/login", nil, ""), false)
	add("login below", request("POST", "/login/", []string{formType}, "passphrase="+pass), true)
	add("form elsewhere", request("POST", "/", []string{formType, "Cookie: mute=x"}, "passphrase="+pass), true)
	list = append(list, op{name: "restart", new: true})
	return
}

// model is what ought to be.
type model struct {
	secret string // of the latest login
	old    []string
}

func (s *server) apply(m *model, o op) error {
	if o.new {
		s.kill()
		if m.secret != "" {
			m.old = append(m.old, m.secret)
		}
		m.secret = ""
		return s.start()
	}
	a, err := s.raw(o.text)
	if err != nil {
		return vk.Badf("crash:request", "the request was not answered: %s\n%s", o.name, s.said())
	}
	if strings.Contains(a.body, marker) || strings.Contains(a.body, outside) {
		return vk.Badf("access:login", "%s: answered with the application's files", o.name)
	}
	var secret string
	for _, c := range a.cookie {
		if c.Value != "" {
			secret = c.Value
			if c.Name != "mute" {
				return vk.Badf("login:cookie", "%s: strange cookie %s", o.name, c.Name)
			}
		}
	}
	loggedIn := secret != ""
	can := s.kind == good
	switch {
	case loggedIn && !(can && (o.ok || o.may)):
		return vk.Badf("login:granted", "%s (%s): a session secret was issued", o.name, kindName[s.kind])
	case !loggedIn && can && o.ok:
		return vk.Badf("login:refused", "%s: no session secret was issued: %d %s", o.name, a.status, a.body)
	}
	if loggedIn {
		if len(secret) < 20 {
			return vk.Badf("login:secret", "short session secret %q", secret)
		}
		for _, x := range append([]string{m.secret}, m.old...) {
			if x == secret {
				return vk.Badf("login:secret", "session secret issued twice")
			}
		}
		if m.secret != "" {
			m.old = append(m.old, m.secret)
		}
		m.secret = secret
	} else if !strings.HasPrefix(o.text, "GET") && !strings.HasPrefix(o.text, "HEAD") && a.status < 400 &&
		!(a.status < 400 && a.status >= 300 && a.loc == "/login") {
		return vk.Badf("login:status", "%s: answered %d without a session secret", o.name, a.status)
	}
	if o.name == "login page" && (a.status != 200 || !strings.Contains(a.body, "passphrase")) {
		return vk.Badf("login:page", "the login page was not served: %d", a.status)
	}
	return nil
}

// cookies returns what may stand in a request, and whether it carries the
// secret, or nothing but it.
type jar struct {
	name        string
	head        []string
	has, proper bool
}

func jars(m *model) (list []jar) {
	add := func(name string, has, proper bool, head ...string) {
		list = append(list, jar{name, head, has, proper})
	}
	add("no cookie", false, false)
	add("empty cookie", false, false, "Cookie: mute=")
	add("cookie without value", false, false, "Cookie: mute")
	add("quoted empty cookie", false, false, `Cookie: mute=""`)
	add("wrong cookie", false, false, "Cookie: mute=x")
	add("blank cookie", false, false, "Cookie: mute= ")
	add("other cookie", false, false, "Cookie: mutex=1")
	add("no session yet", false, false, "Cookie: mute=0; mute=")
	for i, o := range m.old {
		add(fmt.Sprintf("earlier secret %d", i), false, false, "Cookie: mute="+o)
	}
	if s := m.secret; s != "" {
		add("secret", true, true, "Cookie: mute="+s)
		add("secret among others", true, true, "Cookie: a=b; mute="+s+"; c=d")
		add("part of the secret", false, false, "Cookie: mute="+s[:len(s)-1])
		add("first of the secret", false, false, "Cookie: mute="+s[:1])
		add("more than the secret", false, false, "Cookie: mute="+s+"A")
		add("secret in other case", strings.ToLower(s) == s, false, "Cookie: mute="+strings.ToLower(s))
		add("secret under other name", false, false, "Cookie: Mute="+s)
		add("empty, then secret", true, false, "Cookie: mute=; mute="+s)
		add("secret, then wrong", true, false, "Cookie: mute="+s+"; mute=x")
		add("secret as a header", false, false, "Mute: "+s)
		add("two headers", true, false, "Cookie: mute=x", "Cookie: mute="+s)
	}
	return
}

var methods = []string{"GET", "HEAD", "POST", "OPTIONS", "XYZ"}

var paths = []struct {
	path   string
	served bool // with content
	clean  bool
}{
	{"/", true, true}, {"/data.json", true, true}, {"/index.html", false, true}, {"/sub/", true, true},
	{"/sub", false, true}, {"/missing", false, true}, {"/../outside.txt", false, false},
	{"/%2e%2e/outside.txt", false, false}, {"/..%2foutside.txt", false, false}, {"/sub/../../outside.txt", false, false},
	{"/login.html", true, true}, {"/login/../data.json", false, false}, {"//data.json", false, false},
	{"/login/", false, true}, {"/loginx", false, true}, {"http://localhost/data.json", true, true},
	{"/data.json?mute=x", true, true}, {"/sub/" + marker + ".js", true, true},
}

func (s *server) probe(m *model, full bool) error {
	for _, j := range jars(m) {
		for i, p := range paths {
			for k, meth := range methods {
				if !full && (k > 0 || i > 3) && !(k == 1 && i == 0) {
					continue
				}
				q := fmt.Sprintf("%s %s with %s", meth, p.path, j.name)
				a, err := s.raw(request(meth, p.path, j.head, ""))
				r.Trans()
				if err != nil {
					return vk.Badf("crash:request", "the request was not answered: %s\n%s", q, s.said())
				}
				if strings.Contains(a.body, outside) {
					return vk.Badf("access:outside", "%s: a file outside the document root was served", q)
				}
				if !j.has {
					if strings.Contains(a.body, marker) {
						return vk.Badf("access:granted", "%s: the application was served", q)
					}
					if p.clean && (a.status < 400 || a.status == 404) {
						return vk.Badf("access:status", "%s: answered %d", q, a.status)
					}
				}
				if j.proper && p.served && meth == "GET" && !strings.Contains(a.body, marker) {
					return vk.Badf("access:refused", "%s: refused with %d %s", q, a.status, a.body)
				}
				if len(a.cookie) > 0 {
					return vk.Badf("access:cookie", "%s: set a cookie", q)
				}
			}
		}
	}
	return nil
}

func histories() {
	all := ops()
	short := 2 // probed in full
	run := func(kind int, seq []int) {
		var name []string
		for _, i := range seq {
			name = append(name, all[i].name)
		}
		desc := fmt.Sprintf("%s: %s", kindName[kind], strings.Join(name, ", "))
		r.Case(desc, func() error {
			s, err := newServer(kind, "mutectrl")
			if err != nil {
				return err
			}
			defer s.close()
			m := new(model)
			r.State("start")
			for n, i := range seq {
				if err := s.apply(m, all[i]); err != nil {
					return err
				}
				r.Trans()
				r.State(fmt.Sprint(kind, seq[:n+1]))
				if n < len(seq)-1 && len(seq) > 1 {
					continue // probed as a shorter history
				}
				if err := s.probe(m, len(seq) <= short && kind == good); err != nil {
					return err
				}
			}
			return nil
		})
		r.Eval(desc)
		r.Trace()
	}
	type job struct {
		kind int
		seq  []int
	}
	var jobs []job
	core := []int{}
	for i, o := range all {
		switch o.name {
		case "right passphrase", "wrong passphrase", "empty passphrase", "no passphrase", "empty cookie", "HEAD login",
			"GET with passphrase", "GET with wrong passphrase", "restart":
			core = append(core, i)
		}
	}
	var every []int
	for i := range all {
		every = append(every, i)
	}
	add := func(kind int, from []int, min, max int) {
		for n := min; n <= max; n++ {
			vk.Sequences(len(from), n, func(seq []int) {
				j := job{kind: kind}
				for _, i := range seq {
					j.seq = append(j.seq, from[i])
				}
				jobs = append(jobs, j)
			})
		}
	}
	add(good, every, 0, 2)
	for kind := good + 1; kind < kinds; kind++ {
		add(kind, every, 0, 1)
		add(kind, core, 2, 2)
	}
	add(good, core, 3, r.Pick(3, 5))
	if r.Thorough() {
		add(good, every, 3, 3)
		for kind := good + 1; kind < kinds; kind++ {
			add(kind, every, 2, 2)
			add(kind, core, 3, 3)
		}
	}
	if !r.Parallel(len(jobs), func(i int) { run(jobs[i].kind, jobs[i].seq) }) {
		r.Cap("histories")
	}
}

// together sends requests at the same time, to a program that reports races.
func together() {
	all := ops()
	pick := []int{}
	for i, o := range all {
		switch o.name {
		case "right passphrase", "wrong passphrase", "no passphrase", "empty cookie", "login page":
			pick = append(pick, i)
		}
	}
	type job struct{ before, a, b int }
	var jobs []job
	for _, before := range []int{-1, 0} {
		for x, a := range pick {
			for _, b := range pick[x:] {
				jobs = append(jobs, job{before, a, b})
			}
		}
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		desc := fmt.Sprintf("at once: %s and %s", all[j.a].name, all[j.b].name)
		if j.before >= 0 {
			desc += ", logged in"
		}
		r.Case(desc, func() error {
			s, err := newServer(good, "mutectrl-race")
			if err != nil {
				return err
			}
			defer s.close()
			m := new(model)
			if j.before >= 0 {
				if err := s.apply(m, all[j.before]); err != nil {
					return err
				}
			}
			var wg sync.WaitGroup
			ms := [2]*model{new(model), new(model)}
			errs := make([]error, 2)
			for k, o := range []int{j.a, j.b} {
				k, o := k, o
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[k] = s.apply(ms[k], all[o])
				}()
			}
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			if strings.Contains(s.said(), "DATA RACE") {
				return vk.Badf("race", "concurrent requests race:\n%s", s.said())
			}
			// whichever login came last counts
			last := ms[0]
			if ms[0].secret != "" && ms[1].secret != "" {
				n := 0
				for k := range ms {
					a, err := s.raw(request("GET", "/data.json", []string{"Cookie: mute=" + ms[k].secret}, ""))
					if err != nil {
						return vk.Badf("crash:request", "not answered")
					}
					if strings.Contains(a.body, marker) {
						last = ms[k]
						n++
					}
				}
				if n != 1 {
					return vk.Badf("login:count", "%d of two concurrent logins count", n)
				}
			} else if ms[1].secret != "" {
				last = ms[1]
			} else if ms[0].secret == "" {
				last = m
			}
			if err := s.probe(last, false); err != nil {
				return err
			}
			if strings.Contains(s.said(), "DATA RACE") {
				return vk.Badf("race", "concurrent requests race:\n%s", s.said())
			}
			return nil
		})
		r.Eval(desc)
		r.Trace()
	})
}

func main() {
	r = vk.Start("C27")
	files()
	templates()
	r.Assume("The browser is one that opens connections to the loopback interface; a program that watches the loopback " +
		"interface or the browser's memory is not considered.")
	together()
	histories()
	r.Done()
}
