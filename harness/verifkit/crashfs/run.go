package crashfs

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	vk "github.com/mutecomm/mute/verifkit"
)

// Step is a step of a program whose crashes are explored.
type Step struct {
	Name string
	Do   func(dir string) error
}

// Program is a sequence of steps on files in a directory. The first step
// prepares it and is not interrupted.
type Program struct {
	Name  string
	Steps []Step
	// Dump returns all observable content; it gets a copy of the directory.
	Dump func(dir string) (string, error)
	// Middle allows contents between those before and after a step.
	Middle func(step int, dump string) bool
}

// Main runs the traced part of a program, if this is what the process was
// started for. To be called first in main.
func Main(ps ...*Program) {
	if len(os.Args) != 4 || os.Args[1] != "crashfs" {
		return
	}
	runtime.LockOSThread()
	PrepareMarks()
	for _, p := range ps {
		if p.Name != os.Args[2] {
			continue
		}
		for i, s := range p.Steps {
			Mark(fmt.Sprint("begin ", i))
			if err := s.Do(os.Args[3]); err != nil {
				fmt.Fprintln(os.Stderr, "step", s.Name, "failed:", err)
				os.Exit(7)
			}
			Mark(fmt.Sprint("end ", i))
		}
		os.Exit(0)
	}
	os.Exit(8)
}

// CopyDir copies the files of a directory.
func CopyDir(from, to string) error {
	fi, err := ioutil.ReadDir(from)
	if err != nil {
		return err
	}
	for _, f := range fi {
		b, err := ioutil.ReadFile(filepath.Join(from, f.Name()))
		if err != nil {
			return err
		}
		if err := ioutil.WriteFile(filepath.Join(to, f.Name()), b, 0600); err != nil {
			return err
		}
	}
	return nil
}

func temp(name string) string {
	d, err := ioutil.TempDir(os.Getenv("VK_SCRATCH"), name)
	if err != nil {
		panic(err)
	}
	return d
}

// Explore checks the program at every crash point.
func (p *Program) Explore(r *vk.R) {
	// contents before and after every step
	var dumps []string
	ref := temp("ref")
	defer os.RemoveAll(ref)
	if !r.Case(p.Name+": all steps in order", func() error {
		dumps = nil
		os.RemoveAll(ref)
		os.MkdirAll(ref, 0700)
		for _, s := range p.Steps {
			if err := s.Do(ref); err != nil {
				return vk.Badf(p.Name+":step", "step %s failed: %v", s.Name, err)
			}
			d, err := p.dumpCopy(ref)
			if err != nil {
				return vk.Badf(p.Name+":dump", "after step %s: %v", s.Name, err)
			}
			dumps = append(dumps, d)
		}
		return nil
	}) {
		return
	}
	dir := temp("tr")
	defer os.RemoveAll(dir)
	evs, err := Trace(dir, "crashfs", p.Name, dir)
	if err != nil {
		panic(err)
	}
	type crash struct {
		at, step int
		done     bool
		im       Image
	}
	var cs []crash
	seen := map[string]bool{}
	d, step, done, marks := Disk{}, 0, false, 0
	var names []string
	for i, e := range evs {
		names = append(names, e.String())
		if e.Kind == "mark" {
			marks++
			var n int
			if bytes.HasPrefix(e.Data, []byte("begin ")) {
				fmt.Sscanf(string(e.Data), "begin %d", &n)
				step, done = n, false
			} else {
				done = true
			}
		} else {
			d.Step(e)
		}
		if step == 0 {
			continue
		}
		for _, im := range d.Images() {
			k := fmt.Sprint(step, done) + im.Key(dir)
			if !seen[k] {
				seen[k] = true
				cs = append(cs, crash{i, step, done, im})
			}
		}
	}
	if marks != 2*len(p.Steps) {
		panic("trace of " + p.Name + " is incomplete")
	}
	for _, f := range d.Names() {
		b, err := ioutil.ReadFile(f)
		if err != nil || !bytes.Equal(b, d.Content(f)) {
			panic("simulated disk differs from the real one: " + f)
		}
	}
	if !r.Parallel(len(cs), func(i int) {
		c := cs[i]
		desc := fmt.Sprintf("%s: crash in %q after %d file system steps (%s)%s", p.Name, p.Steps[c.step].Name, c.at, names[c.at], c.im.Name)
		r.Case(desc, func() error {
			to := temp("im")
			defer os.RemoveAll(to)
			if err := c.im.Write(dir, to); err != nil {
				panic(err)
			}
			got, err := p.dumpCopy(to)
			if err != nil {
				return vk.Badf(p.Name+":crash-unreadable", "not readable after the crash: %v", err)
			}
			if got == dumps[c.step] || !c.done && got == dumps[c.step-1] {
				return nil
			}
			if !c.done && p.Middle != nil && p.Middle(c.step, got) {
				return nil
			}
			return vk.Badf(p.Name+":crash-state", "content after the crash is neither that before nor that after the step:\n%s\nbefore:\n%s\nafter:\n%s", got, dumps[c.step-1], dumps[c.step])
		})
		r.Trans()
		r.Eval(desc)
		r.State("crash" + desc)
		r.Outcome("crash in " + strings.Fields(p.Steps[c.step].Name)[0])
		if i%101 == 0 {
			r.Sample("%s", desc)
		}
	}) {
		r.Cap(p.Name)
	}
}

func (p *Program) dumpCopy(dir string) (string, error) {
	c := temp("cp")
	defer os.RemoveAll(c)
	if err := CopyDir(dir, c); err != nil {
		return "", err
	}
	return p.Dump(c)
}
