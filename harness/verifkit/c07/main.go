// C07: encrypted databases, their passphrases, and crashes and failures at
// every file system step.
package main

import (
	"bytes"
	"database/sql"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/encode"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/crashfs"
	_ "github.com/mutecomm/mute/verifkit/quickdb"
)

var stmts = []string{"CREATE TABLE T (ID INTEGER PRIMARY KEY, V TEXT NOT NULL);"}

// rows returns the content of the database.
func rows(db *sql.DB) ([]string, error) {
	var chk string
	if err := db.QueryRow("PRAGMA integrity_check;").Scan(&chk); err != nil {
		return nil, err
	}
	if chk != "ok" {
		return nil, errors.New("integrity check: " + chk)
	}
	rs, err := db.Query("SELECT V FROM T ORDER BY ID;")
	if err != nil {
		return nil, err
	}
	defer rs.Close()
	l := []string{}
	for rs.Next() {
		var v string
		if err := rs.Scan(&v); err != nil {
			return nil, err
		}
		l = append(l, v)
	}
	return l, rs.Err()
}

// opens opens the database and returns its content.
func opens(name string, pass []byte) ([]string, error) {
	db, err := encdb.Open(name, pass)
	if err != nil {
		return nil, err
	}
	defer db.Close()
	return rows(db)
}

func insert(name string, pass []byte, v string) error {
	db, err := encdb.Open(name, pass)
	if err != nil {
		return err
	}
	defer db.Close()
	_, err = db.Exec("INSERT INTO T (V) VALUES (?);", v)
	return err
}

func mkdir(name string) string {
	d, err := ioutil.TempDir(os.Getenv("VK_SCRATCH"), name)
	if err != nil {
		panic(err)
	}
	return d
}

// --- histories -------------------------------------------------------------

var hpass = []string{"first", "second", ""}

type hsys struct {
	dir string
	db  *sql.DB
}

func (s *hsys) Close() {
	if s.db != nil {
		s.db.Close()
	}
	os.RemoveAll(s.dir)
}

func (s *hsys) name() string { return filepath.Join(s.dir, "data") }

type hmodel struct {
	exists bool
	pass   string
	rows   []string
	open   bool // a handle opened before is kept open
}

func (m *hmodel) Key() string { return fmt.Sprint(m.exists, m.open, m.pass, len(m.pass), m.rows) }

func histories(r *vk.R) {
	var ops []vk.Op
	add := func(name string, en func(m *hmodel) bool, do func(s *hsys, m *hmodel) error) {
		ops = append(ops, vk.Op{Name: name,
			Enabled: func(m vk.Model) bool { return en == nil || en(m.(*hmodel)) },
			Do:      func(s vk.Sys, m vk.Model) error { return do(s.(*hsys), m.(*hmodel)) }})
	}
	for _, p := range hpass {
		p := p
		add("create("+strconv.Quote(p)+")", nil, func(s *hsys, m *hmodel) error {
			err := encdb.Create(s.name(), []byte(p), 2, stmts)
			if m.exists {
				if err == nil {
					return vk.Badf("history:created-twice", "creating an existing database succeeded")
				}
				return nil
			}
			if err != nil {
				return vk.Badf("history:create", "creating failed: %v", err)
			}
			m.exists, m.pass, m.rows = true, p, nil
			return nil
		})
		for _, q := range hpass {
			p, q := p, q
			it := 1 + len(p)%2
			add(fmt.Sprintf("rekey(%q,%q)", p, q), nil, func(s *hsys, m *hmodel) error {
				err := encdb.Rekey(s.name(), []byte(p), []byte(q), it)
				if !m.exists || p != m.pass {
					if err == nil {
						return vk.Badf("history:rekey-wrong", "rekey with a wrong passphrase succeeded")
					}
					return nil
				}
				if err != nil {
					return vk.Badf("history:rekey", "rekey failed: %v", err)
				}
				m.pass = q
				return nil
			})
		}
	}
	add("open", func(m *hmodel) bool { return m.exists && !m.open }, func(s *hsys, m *hmodel) error {
		db, err := encdb.Open(s.name(), []byte(m.pass))
		if err != nil {
			return vk.Badf("history:open", "open failed: %v", err)
		}
		s.db, m.open = db, true
		return nil
	})
	add("close", func(m *hmodel) bool { return m.open }, func(s *hsys, m *hmodel) error {
		s.db.Close()
		s.db, m.open = nil, false
		return nil
	})
	add("insert", func(m *hmodel) bool { return m.open && len(m.rows) < 3 }, func(s *hsys, m *hmodel) error {
		v := fmt.Sprint("row", len(m.rows))
		if _, err := s.db.Exec("INSERT INTO T (V) VALUES (?);", v); err != nil {
			return vk.Badf("history:insert", "insert failed: %v", err)
		}
		m.rows = append(m.rows, v)
		return nil
	})
	for _, mode := range []string{"NONE", "FULL", "INCREMENTAL"} {
		mode := mode
		add("vacuum("+mode+")", func(m *hmodel) bool { return m.open && len(m.rows) > 0 }, func(s *hsys, m *hmodel) error {
			if err := encdb.Vacuum(s.db, mode); err != nil {
				return vk.Badf("history:vacuum", "vacuum failed: %v", err)
			}
			got, _, err := encdb.Status(s.db)
			if err != nil || got != mode {
				return vk.Badf("history:status", "after vacuum(%s): %s %v", mode, got, err)
			}
			return nil
		})
	}
	l := &vk.Lockstep{Name: "history", Ops: ops, Depth: r.Pick(4, 5), Merge: false,
		New: func() (vk.Sys, vk.Model, error) { return &hsys{dir: mkdir("h")}, &hmodel{}, nil },
		Check: func(s vk.Sys, m vk.Model) error {
			h, hm := s.(*hsys), m.(*hmodel)
			return only(h.name(), hm.exists, hm.pass, hpass, hm.rows, "history")
		}}
	if !l.Explore(r) {
		r.Cap("histories")
	}
	l.Name, l.Depth, l.Merge = "merged history", r.Pick(7, 10), true
	if !l.Explore(r) {
		r.Cap("histories")
	}
}

// only checks that the database opens with pass alone and has the content.
func only(name string, exists bool, pass string, all []string, want []string, sig string) error {
	for _, p := range all {
		got, err := opens(name, []byte(p))
		switch {
		case exists && p == pass && err != nil:
			return vk.Badf(sig+":locked-out", "does not open with its passphrase %.20q: %v", p, err)
		case exists && p == pass && strings.Join(got, ",") != strings.Join(want, ","):
			return vk.Badf(sig+":content", "content is %q, want %q", got, want)
		case !(exists && p == pass) && err == nil:
			return vk.Badf(sig+":opens-with-wrong", "opens with passphrase %.20q (%d bytes), set was %.20q (%d bytes)", p, len(p), pass, len(pass))
		}
	}
	return nil
}

// --- passphrases -----------------------------------------------------------

func passphrases() []string {
	l := []string{"", "a", "A", "b", "ab", "a ", " a", "a\n", "a\r", "aa", "\x01", "\x7f", "\x80", "\xff",
		"passw\xc3\xb6rd", "passwo\xcc\x88rd", "'", "\"", "x'00'", "a'; --", "?_pragma_key=x'00'&", "%00", "%s", "0"}
	for _, n := range []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 2000, 4096} {
		l = append(l, strings.Repeat("p", n), strings.Repeat("p", n-1)+"q", "q"+strings.Repeat("p", n-1))
	}
	return l
}

func matrix(r *vk.R) {
	ps := passphrases()
	r.Parallel(len(ps), func(i int) {
		p := ps[i]
		r.Case(fmt.Sprintf("create with passphrase %d (%.30q), open with all others, rekey to all others", i, p), func() error {
			dir := mkdir("m")
			defer os.RemoveAll(dir)
			name := filepath.Join(dir, "d")
			if err := encdb.Create(name, []byte(p), 1, stmts); err != nil {
				return vk.Badf("matrix:create", "create with %.30q: %v", p, err)
			}
			if err := insert(name, []byte(p), "x"); err != nil {
				return vk.Badf("matrix:insert", "%v", err)
			}
			if err := only(name, true, p, ps, []string{"x"}, "matrix"); err != nil {
				return err
			}
			cur := p
			for k := range ps {
				q := ps[(i+k)%len(ps)]
				if err := encdb.Rekey(name, []byte(q), []byte(p), 1); err == nil && q != cur {
					return vk.Badf("matrix:rekey-wrong", "rekey with %.20q instead of %.20q succeeded", q, cur)
				}
				if q == cur && k > 0 {
					return vk.Badf("matrix:duplicate", "passphrase list has duplicates")
				}
				if q == cur {
					cur = p
				}
				if err := encdb.Rekey(name, []byte(cur), []byte(q), 1+k%3); err != nil {
					return vk.Badf("matrix:rekey", "rekey %.20q to %.20q: %v", cur, q, err)
				}
				old := cur
				cur = q
				if err := only(name, true, cur, []string{cur, old, cur + "x", strings.ToUpper(cur) + "y"}, []string{"x"}, "rekeyed"); err != nil {
					return err
				}
				r.Eval(fmt.Sprint("pair ", i, " ", k))
			}
			r.Trace()
			return nil
		})
	})
	// passphrases of other files
	r.Case("key file of another database", func() error {
		dir := mkdir("k")
		defer os.RemoveAll(dir)
		a, b := filepath.Join(dir, "a"), filepath.Join(dir, "b")
		for _, n := range []string{a, b} {
			if err := encdb.Create(n, []byte("p"), 2, stmts); err != nil {
				return vk.Badf("foreign:create", "%v", err)
			}
		}
		kb, _ := ioutil.ReadFile(b + ".key")
		ka, _ := ioutil.ReadFile(a + ".key")
		if bytes.Equal(ka, kb) {
			return vk.Badf("foreign:same", "two databases have the same key file")
		}
		ioutil.WriteFile(a+".key", kb, 0600)
		if _, err := opens(a, []byte("p")); err == nil {
			return vk.Badf("foreign:opens", "database opens with the key file of another")
		}
		for i := 8; i < len(ka); i++ {
			for _, bit := range []byte{1, 0x80} {
				k := append([]byte(nil), ka...)
				k[i] ^= bit
				ioutil.WriteFile(a+".key", k, 0600)
				if _, err := opens(a, []byte("p")); err == nil {
					return vk.Badf("foreign:altered", "database opens with key file altered at %d", i)
				}
			}
			r.Eval(fmt.Sprint("altered key ", i))
		}
		for _, n := range []uint64{0, 1, 3, 1000, 1 << 31, 1<<32 + 2, 1 << 63, 1<<63 + 2} {
			k := append(encode.ToByte8(n), ka[8:]...)
			ioutil.WriteFile(a+".key", k, 0600)
			if _, err := opens(a, []byte("p")); err == nil {
				return vk.Badf("foreign:altered", "database opens with %d iterations", n)
			}
		}
		for n := 0; n < len(ka); n++ {
			ioutil.WriteFile(a+".key", ka[:n], 0600)
			if _, err := opens(a, []byte("p")); err == nil {
				return vk.Badf("foreign:cut", "database opens with key file cut to %d bytes", n)
			}
		}
		ioutil.WriteFile(a+".key", ka, 0600)
		if _, err := opens(a, []byte("p")); err != nil {
			return vk.Badf("foreign:restored", "database does not open with its key file put back: %v", err)
		}
		// the content must not be readable without the key
		d, _ := ioutil.ReadFile(a + ".db")
		for _, s := range []string{"SQLite format", "CREATE TABLE"} {
			if bytes.Contains(d, []byte(s)) {
				return vk.Badf("foreign:plain", "database file contains %q", s)
			}
		}
		return nil
	})
	// nothing existing is overwritten
	for _, have := range []string{".db", ".key", ".db .key"} {
		for _, content := range []string{"", "x", strings.Repeat("keep", 2000)} {
			have, content := have, content
			r.Case(fmt.Sprintf("create when %s with %d bytes exist", have, len(content)), func() error {
				dir := mkdir("e")
				defer os.RemoveAll(dir)
				n := filepath.Join(dir, "d")
				for _, s := range strings.Fields(have) {
					ioutil.WriteFile(n+s, []byte(content), 0600)
				}
				if err := encdb.Create(n, []byte("p"), 1, stmts); err == nil {
					return vk.Badf("exists:created", "database was created over existing files")
				}
				for _, s := range strings.Fields(have) {
					if b, err := ioutil.ReadFile(n + s); err != nil || string(b) != content {
						return vk.Badf("exists:overwritten", "existing file %s was changed", s)
					}
				}
				r.Eval("exists " + have + fmt.Sprint(len(content)))
				return nil
			})
		}
	}
}

// --- crashes ---------------------------------------------------------------

type step struct {
	name string
	do   func(name string) error
}

// script is the life of a database; the marks in the trace tell which steps
// had started and finished.
var script = []step{
	{"create", func(n string) error { return encdb.Create(n, []byte("one"), 1, stmts) }},
	{"insert one", func(n string) error { return insert(n, []byte("one"), "one") }},
	{"rekey one two", func(n string) error { return encdb.Rekey(n, []byte("one"), []byte("two"), 3) }},
	{"insert two", func(n string) error { return insert(n, []byte("two"), "two") }},
	{"rekey two two", func(n string) error { return encdb.Rekey(n, []byte("two"), []byte("two"), 1) }},
	{"rekey two three", func(n string) error { return encdb.Rekey(n, []byte("two"), []byte("three"), 2) }},
	{"rekey three one", func(n string) error { return encdb.Rekey(n, []byte("three"), []byte("one"), 1) }},
}

// helper runs the script with marks.
func helper(dir string, from, to int) {
	runtime.LockOSThread()
	crashfs.PrepareMarks()
	if s := os.Getenv("C07_FSIZE"); s != "" {
		signal.Ignore(syscall.SIGXFSZ)
		n, _ := strconv.ParseUint(s, 10, 64)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			panic(err)
		}
	}
	for _, s := range script[from:to] {
		crashfs.Mark("begin " + s.name)
		if err := s.do(filepath.Join(dir, "data")); err != nil {
			crashfs.Mark("failed " + s.name)
			fmt.Println("failed:", s.name, err)
			os.Exit(7)
		}
		crashfs.Mark("end " + s.name)
	}
	os.Exit(0)
}

// expect is what must hold after a crash at some point of the script.
type expect struct {
	created bool     // creation had finished
	pass    []string // any of these opens, exactly one
	rows    []string
	maybe   string // a row that may be there
	during  string
}

func (x *expect) mark(m string) {
	f := strings.Fields(m)
	switch {
	case f[0] == "begin":
		x.during = strings.Join(f[1:], " ")
		if f[1] == "insert" {
			x.maybe = f[2]
		}
		if f[1] == "rekey" && f[2] != f[3] {
			x.pass = []string{f[2], f[3]}
		}
	case f[0] == "end":
		x.during = ""
		switch f[1] {
		case "create":
			x.created = true
			x.pass = []string{"one"}
		case "insert":
			x.rows = append(append([]string(nil), x.rows...), x.maybe)
			x.maybe = ""
		case "rekey":
			x.pass = []string{f[3]}
		}
	}
}

var allPass = []string{"one", "two", "three", "", "One"}

// recovered checks a database after a crash or failure.
func (x *expect) recovered(name string) error {
	var with []string
	var got []string
	for _, p := range allPass {
		g, err := opens(name, []byte(p))
		if err == nil {
			with = append(with, p)
			got = g
			continue
		}
		// readable with the passphrase, but damaged?
		if db, oerr := encdb.Open(name, []byte(p)); oerr == nil {
			db.Close()
			if x.created {
				return vk.Badf("crash:damaged", "opens with %q but is damaged: %v", p, err)
			}
			if p != "one" {
				return vk.Badf("crash:opens-with-wrong", "opens with %q", p)
			}
		}
	}
	if !x.created {
		if len(with) > 1 || (len(with) == 1 && with[0] != "one") {
			return vk.Badf("crash:opens-with-wrong", "interrupted creation opens with %q", with)
		}
		if len(with) == 1 && len(got) > 0 {
			return vk.Badf("crash:content", "content out of nowhere: %q", got)
		}
		return nil
	}
	if len(with) == 0 {
		return vk.Badf("crash:locked-out", "opens with no passphrase any more")
	}
	if len(with) > 1 {
		return vk.Badf("crash:opens-with-many", "opens with %q", with)
	}
	if !contains(x.pass, with[0]) {
		return vk.Badf("crash:opens-with-wrong", "opens with %q, expected one of %q", with[0], x.pass)
	}
	w := strings.Join(x.rows, ",")
	w2 := w
	if x.maybe != "" {
		w2 = strings.Join(append(append([]string(nil), x.rows...), x.maybe), ",")
	}
	if g := strings.Join(got, ","); g != w && g != w2 {
		return vk.Badf("crash:content", "content is %q, expected %q", g, w)
	}
	// the database is usable, the passphrase change can be done again
	if err := insert(name, []byte(with[0]), "after"); err != nil {
		return vk.Badf("crash:insert", "cannot be written any more: %v", err)
	}
	if err := encdb.Rekey(name, []byte(with[0]), []byte("final"), 1); err != nil {
		return vk.Badf("crash:rekey-again", "passphrase cannot be changed after the interruption: %v", err)
	}
	return only(name, true, "final", append([]string{"final"}, allPass...), append(got, "after"), "crash:again")
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func crashes(r *vk.R) {
	dir := mkdir("c")
	defer os.RemoveAll(dir)
	evs, err := crashfs.Trace(dir, "helper", dir, "0", strconv.Itoa(len(script)))
	if err != nil {
		panic(err)
	}
	type crash struct {
		at  int
		im  crashfs.Image
		exp expect
	}
	var cs []crash
	seen := map[string]bool{}
	d, x := crashfs.Disk{}, expect{}
	names := []string{}
	marks := 0
	for i, e := range evs {
		if e.Kind == "mark" {
			x.mark(string(e.Data))
			marks++
		} else {
			d.Step(e)
		}
		names = append(names, e.String())
		for _, im := range d.Images() {
			k := im.Key(dir) + fmt.Sprint(x)
			if seen[k] {
				continue
			}
			seen[k] = true
			cs = append(cs, crash{i, im, x})
		}
	}
	if marks != 2*len(script) || !x.created || len(x.rows) != 2 || len(x.pass) != 1 || x.pass[0] != "one" {
		panic(fmt.Sprint("trace is incomplete: ", marks, names))
	}
	// the simulated disk ends up as the real one
	for _, p := range d.Names() {
		b, err := ioutil.ReadFile(p)
		if err != nil || !bytes.Equal(b, d.Content(p)) {
			panic("simulated disk differs from the real one: " + p)
		}
	}
	fi, _ := ioutil.ReadDir(dir)
	if len(fi) != len(d) {
		panic(fmt.Sprint("simulated disk has other files: ", d.Names()))
	}
	r.Note("file_system_steps", len(evs)-marks)
	r.Note("crash_images", len(cs))
	if !r.Parallel(len(cs), func(i int) {
		c := cs[i]
		r.State("crash" + fmt.Sprint(c.at) + c.im.Name)
		desc := fmt.Sprintf("crash after step %d (%s) during %q%s", c.at, names[c.at], c.exp.during, c.im.Name)
		r.Case(desc, func() error {
			to := mkdir("i")
			defer os.RemoveAll(to)
			if err := c.im.Write(dir, to); err != nil {
				panic(err)
			}
			r.Trans()
			return c.exp.recovered(filepath.Join(to, "data"))
		})
		r.Eval(desc)
		r.Outcome("crash during " + c.exp.during)
		if i%97 == 0 {
			r.Sample("%s", desc)
		}
	}) {
		r.Cap("crash images")
	}
}

// --- failing system calls --------------------------------------------------

// faults lets every system call of a step fail in turn.
func faults(r *vk.R) {
	type fault struct {
		call, err string
		step      int
	}
	var fs []fault
	for _, st := range []int{0, 1, 2, 5} {
		for _, c := range []string{"openat:EACCES", "openat:EMFILE", "write:ENOSPC", "write:EIO", "pwrite64:ENOSPC", "pwrite64:EIO",
			"fsync:EIO", "fdatasync:EIO", "renameat:EIO", "renameat:ENOSPC", "rename:EIO", "ftruncate:EIO", "unlink:EIO", "unlinkat:EIO",
			"read:EIO", "pread64:EIO"} {
			p := strings.Split(c, ":")
			fs = append(fs, fault{p[0], p[1], st})
		}
	}
	// the databases before each of the steps
	base := mkdir("b")
	defer os.RemoveAll(base)
	before := map[int]string{}
	exps := map[int]expect{}
	for st := 0; st <= 6; st++ {
		d := filepath.Join(base, fmt.Sprint(st))
		os.MkdirAll(d, 0700)
		x := expect{}
		for _, s := range script[:st] {
			x.mark("begin " + s.name)
			if err := s.do(filepath.Join(d, "data")); err != nil {
				panic(err)
			}
			x.mark("end " + s.name)
		}
		before[st], exps[st] = d, x
	}
	if !r.Parallel(len(fs), func(i int) {
		f := fs[i]
		for n := 1; n < 200; n++ {
			hit := false
			desc := fmt.Sprintf("%s: call %d of %s on its files fails with %s", script[f.step].name, n, f.call, f.err)
			ok := r.Case(desc, func() error {
				dir := mkdir("f")
				defer os.RemoveAll(dir)
				copyDir(before[f.step], dir)
				out := dir + ".trace"
				defer os.Remove(out)
				a := []string{"-f", "-o", out}
				for _, s := range []string{".db", ".key", ".key.new", ".db-journal", ".db-wal"} {
					a = append(a, "-P", filepath.Join(dir, "data"+s))
				}
				a = append(a, "-e", "trace="+f.call, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", f.call, f.err, n),
					os.Args[0], "helper", dir, strconv.Itoa(f.step), strconv.Itoa(f.step+1))
				cmd := exec.Command("strace", a...)
				var eb bytes.Buffer
				cmd.Stderr, cmd.Stdout = &eb, &eb
				err := cmd.Run()
				code := cmd.ProcessState.ExitCode()
				b, _ := ioutil.ReadFile(out)
				hit = bytes.Contains(b, []byte("(INJECTED)"))
				return outcome(exps[f.step], script[f.step].name, filepath.Join(dir, "data"), err == nil, code, eb.String())
			})
			if !hit && ok {
				break
			}
			r.Eval(desc)
			r.Trans()
			r.Outcome("failing " + f.call)
		}
	}) {
		r.Cap("faults")
	}
	// full disk at every size
	var sizes []int
	for n := 0; n <= 96; n++ {
		sizes = append(sizes, n)
	}
	for n := 512; n <= 8192; n += 512 {
		sizes = append(sizes, n)
	}
	steps := []int{0, 1, 2}
	if !r.Parallel(len(sizes)*len(steps), func(i int) {
		n, st := sizes[i/len(steps)], steps[i%len(steps)]
		desc := fmt.Sprintf("%s: files cannot grow beyond %d bytes", script[st].name, n)
		r.Case(desc, func() error {
			dir := mkdir("f")
			defer os.RemoveAll(dir)
			copyDir(before[st], dir)
			cmd := exec.Command(os.Args[0], "helper", dir, strconv.Itoa(st), strconv.Itoa(st+1))
			cmd.Env = append(os.Environ(), "C07_FSIZE="+strconv.Itoa(n))
			var eb bytes.Buffer
			cmd.Stderr, cmd.Stdout = &eb, &eb
			err := cmd.Run()
			return outcome(exps[st], script[st].name, filepath.Join(dir, "data"), err == nil, cmd.ProcessState.ExitCode(), eb.String())
		})
		r.Eval(desc)
		r.Trans()
	}) {
		r.Cap("sizes")
	}
}

// outcome checks the database after a step that met a fault.
func outcome(x expect, name, db string, ok bool, code int, out string) error {
	x.mark("begin " + name)
	if ok {
		x.mark("end " + name)
	} else if code != 7 {
		return vk.Badf("fault:crashed", "the program ended with code %d: %.600s", code, out)
	}
	if err := x.recovered(db); err != nil {
		b := err.(*vk.Bad)
		res := "reported an error"
		if ok {
			res = "reported success"
		}
		return vk.Badf(strings.Replace(b.Sig, "crash:", "fault:", 1), "%s, then: %s (%s)", res, b.Detail, strings.TrimSpace(out))
	}
	return nil
}

func copyDir(from, to string) {
	fi, err := ioutil.ReadDir(from)
	if err != nil {
		panic(err)
	}
	for _, f := range fi {
		b, err := ioutil.ReadFile(filepath.Join(from, f.Name()))
		if err != nil {
			panic(err)
		}
		if err := ioutil.WriteFile(filepath.Join(to, f.Name()), b, 0600); err != nil {
			panic(err)
		}
	}
}

// --- the command that creates and rekeys the key database ------------------

// mutecrypt runs the tool with the passphrase lines delivered one by one.
func mutecrypt(home string, lines []string, whole bool, args ...string) error {
	if err := os.MkdirAll(filepath.Join(home, "log"), 0700); err != nil {
		panic(err)
	}
	a := append([]string{"--homedir", home, "--logdir", filepath.Join(home, "log"), "--keyserver", "--passphrase-fd", "stdin"}, args...)
	cmd := exec.Command(filepath.Join(os.Getenv("VK_BIN"), "mutecrypt"), a...)
	var eb bytes.Buffer
	cmd.Stderr, cmd.Stdout = &eb, &eb
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	if whole {
		in.Write([]byte(strings.Join(lines, "\n") + "\n"))
	} else {
		for _, l := range lines {
			in.Write([]byte(l + "\n"))
			time.Sleep(30 * time.Millisecond)
		}
	}
	in.Close()
	if err := cmd.Wait(); err != nil {
		return fmt.Errorf("%v: %.300s", err, eb.String())
	}
	return nil
}

func commands(r *vk.R) {
	ps := []string{"a", "b", "", "a longer one with spaces "}
	for _, n := range []int{100, 1366, 2047, 2048, 2500, 4000} {
		ps = append(ps, strings.Repeat("a", n), strings.Repeat("b", n), strings.Repeat("ab", n/2))
	}
	if r.Thorough() {
		for n := 1000; n <= 4090; n += 103 {
			ps = append(ps, strings.Repeat("a", n), strings.Repeat("b", n))
		}
	}
	short := func(p string) string { return fmt.Sprintf("%.3q(%d)", p, len(p)) }
	type job struct {
		old, p, q string
		whole     bool
	}
	var jobs []job
	for i, p := range ps {
		for j, q := range ps {
			if p == q || len(p) == len(q) || len(p) < 30 && len(q) < 30 || (i*7+j)%5 == 0 {
				jobs = append(jobs, job{"", p, q, false}, job{"", p, q, true})
				jobs = append(jobs, job{ps[(i+j)%len(ps)], p, q, (i+j)%2 == 0})
			}
		}
	}
	if !r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		rekey := i%3 == 2
		desc := fmt.Sprintf("db create with passphrases %s and %s, all at once: %v", short(j.p), short(j.q), j.whole)
		if rekey {
			desc = fmt.Sprintf("db rekey from %s with new passphrases %s and %s, all at once: %v", short(j.old), short(j.p), short(j.q), j.whole)
		}
		r.Case(desc, func() error {
			home := mkdir("g")
			defer os.RemoveAll(home)
			name := filepath.Join(home, "keys")
			all := []string{j.p, j.q, j.old, j.p + "x"}
			if !rekey {
				err := mutecrypt(home, []string{j.p, j.q}, j.whole, "db", "create", "--iterations", "1")
				if j.p != j.q {
					if err == nil {
						return vk.Badf("command:differ", "passphrases differ, but the database was created")
					}
					return nil
				}
				if err != nil {
					return vk.Badf("command:create", "create failed: %v", err)
				}
				return openSet(name, j.p, all)
			}
			if err := encdb.Create(name, []byte(j.old), 1, []string{"CREATE TABLE T (ID INTEGER PRIMARY KEY, V TEXT NOT NULL);"}); err != nil {
				panic(err)
			}
			err := mutecrypt(home, []string{j.old, j.p, j.q}, j.whole, "db", "rekey", "--iterations", "1")
			if j.p != j.q {
				if err == nil {
					return vk.Badf("command:differ", "new passphrases differ, but the database was rekeyed")
				}
				return openSet(name, j.old, all)
			}
			if err != nil {
				return vk.Badf("command:rekey", "rekey failed: %v", err)
			}
			return openSet(name, j.p, all)
		})
		r.Trans()
		r.Eval(desc)
	}) {
		r.Cap("commands")
	}
}

func openSet(name, pass string, all []string) error {
	for _, p := range append(all, pass) {
		db, err := encdb.Open(name, []byte(p))
		if err == nil {
			db.Close()
		}
		if (err == nil) != (p == pass) {
			return vk.Badf("command:opens", "passphrase of %d bytes (set: %d bytes): %v", len(p), len(pass), err)
		}
	}
	return nil
}

func main() {
	if len(os.Args) > 4 && os.Args[1] == "helper" {
		a, _ := strconv.Atoi(os.Args[3])
		b, _ := strconv.Atoi(os.Args[4])
		helper(os.Args[2], a, b)
	}
	r := vk.Start("C07")
	if os.Getenv("VK_SHARD") == "" {
		if err := crashfs.Works(); err != nil {
			panic(fmt.Sprint("strace does not work here: ", err))
		}
	}
	r.Fork()
	parts := map[string]func(*vk.R){"crash": crashes, "history": histories, "matrix": matrix, "fault": faults, "command": commands}
	if len(os.Args) > 1 {
		parts[os.Args[1]](r)
	} else {
		for _, p := range []string{"crash", "matrix", "fault", "command", "history"} {
			parts[p](r)
		}
	}
	r.Assume("Directory operations reach the disk in order and at once; unsynced writes to a file may be lost, cut or zeroed, and any single one may be missing.")
	r.Assume("Passphrases contain no NUL bytes (PBKDF2 pads with them).")
	r.Done()
}
