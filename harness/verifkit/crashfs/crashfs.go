// Package crashfs records the file system steps of a program and enumerates
// what a crash may leave on disk.
package crashfs

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

// Event is one file system step of the traced program.
type Event struct {
	Kind string // create, write, trunc, sync, rename, unlink, mark
	path string
	to   string
	off  int64
	Data []byte
}

func (e Event) String() string {
	s := e.Kind + " " + filepath.Base(e.path)
	switch e.Kind {
	case "write":
		s += fmt.Sprintf(" %d+%d", e.off, len(e.Data))
	case "trunc":
		s += fmt.Sprintf(" to %d", e.off)
	case "rename":
		s += " to " + filepath.Base(e.to)
	case "mark":
		s = "mark " + string(e.Data)
	}
	return s
}

var callRE = regexp.MustCompile(`^(?:\d+ +)?([a-z0-9_]+)\((.*)\) += (-?\d+)`)

func unhex(s string) []byte {
	s = strings.TrimPrefix(s, `"`)
	s = strings.TrimSuffix(s, `"`)
	b, err := hex.DecodeString(strings.Replace(s, `\x`, "", -1))
	if err != nil {
		panic("trace: bad string " + s)
	}
	return b
}

// args splits the argument list of a traced call.
func args(s string) (a []string) {
	depth, quoted, last := 0, false, 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"':
			quoted = !quoted
		case quoted:
		case c == '(' || c == '{' || c == '[' || c == '<':
			depth++
		case c == ')' || c == '}' || c == ']' || c == '>':
			depth--
		case c == ',' && depth == 0:
			a = append(a, strings.TrimSpace(s[last:i]))
			last = i + 1
		}
	}
	return append(a, strings.TrimSpace(s[last:]))
}

// MarkFD is the descriptor a traced program writes its marks to.
const MarkFD = 199

// PrepareMarks opens the descriptor for marks.
func PrepareMarks() {
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Dup2(int(null.Fd()), MarkFD); err != nil {
		panic(err)
	}
}

// Mark puts a mark into the trace.
func Mark(s string) { syscall.Write(MarkFD, []byte(s+"\n")) }

// Works reports whether programs can be traced here.
func Works() error { return exec.Command("strace", "-o", "/dev/null", "true").Run() }

// Trace runs the helper under strace and returns its file system steps.
func Trace(dir string, helper ...string) ([]Event, error) {
	out := filepath.Join(filepath.Dir(dir), filepath.Base(dir)+".trace")
	defer os.Remove(out)
	a := []string{"-f", "-xx", "-s", "10000000", "-o", out, "-e",
		"trace=open,openat,creat,write,pwrite64,writev,pwritev,ftruncate,truncate,fsync,fdatasync,rename,renameat,renameat2,unlink,unlinkat,close,lseek,mmap,link,linkat,sync_file_range,fallocate,copy_file_range,sendfile"}
	a = append(a, os.Args[0])
	a = append(a, helper...)
	cmd := exec.Command("strace", a...)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("strace: %v: %s", err, eb.String())
	}
	f, err := os.Open(out)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	fds := map[string]string{}
	pos := map[string]int64{}
	var evs []Event
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	in := func(p string) bool { return strings.HasPrefix(p, dir+"/") }
	pending := map[string]string{}
	for sc.Scan() {
		line := sc.Text()
		if i := strings.Index(line, " <unfinished ...>"); i >= 0 {
			pid := strings.Fields(line)[0]
			pending[pid] = line[:i]
			continue
		}
		if i := strings.Index(line, " resumed>"); i >= 0 && strings.Contains(line, "<... ") {
			pid := strings.Fields(line)[0]
			line = pending[pid] + line[i+len(" resumed>"):]
		}
		m := callRE.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		name, ar, ret := m[1], args(m[2]), m[3]
		if strings.HasPrefix(ret, "-") {
			continue
		}
		switch name {
		case "open", "openat", "creat":
			if name == "openat" {
				ar = ar[1:]
			}
			p := string(unhex(ar[0]))
			fds[ret] = p
			pos[ret] = 0
			if !in(p) {
				continue
			}
			flags := "O_CREAT|O_TRUNC"
			if len(ar) > 1 {
				flags = ar[1]
			}
			if strings.Contains(flags, "O_APPEND") {
				return nil, fmt.Errorf("append to %s", p)
			}
			if strings.Contains(flags, "O_CREAT") {
				evs = append(evs, Event{Kind: "create", path: p})
			}
			if strings.Contains(flags, "O_TRUNC") {
				evs = append(evs, Event{Kind: "trunc", path: p})
			}
		case "close":
			delete(fds, ar[0])
		case "lseek":
			pos[ar[0]], _ = strconv.ParseInt(ret, 10, 64)
		case "write":
			p := fds[ar[0]]
			n, _ := strconv.Atoi(ret)
			if ar[0] == "199" {
				evs = append(evs, Event{Kind: "mark", Data: bytes.TrimSpace(unhex(ar[1]))})
			}
			if in(p) {
				evs = append(evs, Event{Kind: "write", path: p, off: pos[ar[0]], Data: unhex(ar[1])[:n]})
				pos[ar[0]] += int64(n)
			}
		case "pwrite64":
			if p := fds[ar[0]]; in(p) {
				n, _ := strconv.Atoi(ret)
				off, _ := strconv.ParseInt(ar[3], 10, 64)
				evs = append(evs, Event{Kind: "write", path: p, off: off, Data: unhex(ar[1])[:n]})
			}
		case "ftruncate":
			if p := fds[ar[0]]; in(p) {
				n, _ := strconv.ParseInt(ar[1], 10, 64)
				evs = append(evs, Event{Kind: "trunc", path: p, off: n})
			}
		case "fsync", "fdatasync":
			if p := fds[ar[0]]; in(p) {
				evs = append(evs, Event{Kind: "sync", path: p})
			}
		case "rename", "renameat", "renameat2":
			if name != "rename" {
				ar = []string{ar[1], ar[3]}
			}
			if p := string(unhex(ar[0])); in(p) {
				to := string(unhex(ar[1]))
				evs = append(evs, Event{Kind: "rename", path: p, to: to})
				for fd, q := range fds {
					if q == p {
						fds[fd] = to
					}
				}
			}
		case "unlink", "unlinkat":
			if name == "unlinkat" {
				ar = ar[1:]
			}
			if p := string(unhex(ar[0])); in(p) {
				evs = append(evs, Event{Kind: "unlink", path: p})
			}
		case "mmap":
			if len(ar) > 4 && in(fds[ar[4]]) && strings.Contains(ar[2], "PROT_WRITE") && strings.Contains(ar[3], "MAP_SHARED") {
				return nil, fmt.Errorf("shared writable mapping of %s", fds[ar[4]])
			}
		default:
			if len(ar) > 0 && (in(fds[ar[0]]) || strings.HasPrefix(ar[0], `"`) && in(string(unhex(ar[0])))) {
				return nil, fmt.Errorf("untracked call %s", line)
			}
		}
	}
	return evs, sc.Err()
}

// file is the content of a file: what is on disk for certain, and the
// operations since then that may or may not have reached it.
type file struct {
	synced  []byte
	pending []Event
}

func apply(b []byte, e Event) []byte {
	if e.Kind == "trunc" {
		for int64(len(b)) < e.off {
			b = append(b, 0)
		}
		return append([]byte(nil), b[:e.off]...)
	}
	n := append([]byte(nil), b...)
	for int64(len(n)) < e.off+int64(len(e.Data)) {
		n = append(n, 0)
	}
	copy(n[e.off:], e.Data)
	return n
}

// Content returns the content a file has without a crash.
func (d Disk) Content(p string) []byte { return d[p].full() }

func (f *file) full() []byte {
	b := f.synced
	for _, e := range f.pending {
		b = apply(b, e)
	}
	return b
}

// variant is a possible content of a file after a crash.
type variant struct {
	name string
	data []byte
}

// variants returns what may be on disk: any prefix of the operations that
// were not synced, the last of them possibly torn, each single one dropped.
func (f *file) variants() (vs []variant) {
	seen := map[string]bool{}
	add := func(n string, b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			vs = append(vs, variant{n, b})
		}
	}
	add("all", f.full())
	b := f.synced
	for k, e := range f.pending {
		add(fmt.Sprintf("first %d unsynced", k), b)
		if e.Kind == "write" && len(e.Data) > 1 {
			for _, cut := range []int{1, len(e.Data) / 2, len(e.Data) - 1} {
				t := e
				t.Data = e.Data[:cut]
				add(fmt.Sprintf("first %d unsynced and %d bytes", k, cut), apply(b, t))
			}
			z := e
			z.Data = make([]byte, len(e.Data))
			add(fmt.Sprintf("first %d unsynced and zeros", k), apply(b, z))
		}
		b = apply(b, e)
	}
	for k := range f.pending {
		b := f.synced
		for j, e := range f.pending {
			if j != k {
				b = apply(b, e)
			}
		}
		add(fmt.Sprintf("without unsynced %d", k), b)
	}
	return
}

// Disk is the simulated file system.
type Disk map[string]*file

// Names lists the files.
func (d Disk) Names() (n []string) {
	for p := range d {
		n = append(n, p)
	}
	sort.Strings(n)
	return
}

// Step applies an event.
func (d Disk) Step(e Event) {
	switch e.Kind {
	case "create":
		if d[e.path] == nil {
			d[e.path] = &file{}
		}
	case "write", "trunc":
		f := d[e.path]
		if f == nil {
			f = &file{}
			d[e.path] = f
		}
		f.pending = append(f.pending, e)
	case "sync":
		if f := d[e.path]; f != nil {
			f.synced, f.pending = f.full(), nil
		}
	case "rename":
		d[e.to] = d[e.path]
		delete(d, e.path)
	case "unlink":
		delete(d, e.path)
	}
}

// Image is one possible disk content.
type Image struct {
	Name  string
	files map[string][]byte
}

// Images enumerates what a crash may leave: every combination of the
// variants of the files.
func (d Disk) Images() []Image {
	ims := []Image{{files: map[string][]byte{}}}
	for _, p := range d.Names() {
		var next []Image
		for _, v := range d[p].variants() {
			for _, im := range ims {
				fs := map[string][]byte{p: v.data}
				for k, b := range im.files {
					fs[k] = b
				}
				n := im.Name
				if v.name != "all" {
					n += fmt.Sprintf("; %s: %s", filepath.Base(p), v.name)
				}
				next = append(next, Image{n, fs})
			}
		}
		ims = next
	}
	return ims
}

// Write lays the image out in directory to.
func (im Image) Write(from, to string) error {
	os.RemoveAll(to)
	if err := os.MkdirAll(to, 0700); err != nil {
		return err
	}
	for p, b := range im.files {
		if err := os.WriteFile(filepath.Join(to, strings.TrimPrefix(p, from+"/")), b, 0600); err != nil {
			return err
		}
	}
	return nil
}

// Key identifies the content of the image.
func (im Image) Key(from string) string {
	var n []string
	for p := range im.files {
		n = append(n, p)
	}
	sort.Strings(n)
	s := ""
	for _, p := range n {
		s += strings.TrimPrefix(p, from) + "\x00" + strconv.Itoa(len(im.files[p])) + "\x00" + string(im.files[p])
	}
	return s
}
