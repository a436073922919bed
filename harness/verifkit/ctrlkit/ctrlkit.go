// Package ctrlkit runs commands of mutectrl's engine in this process, on a
// message database that can be exchanged between commands.
package ctrlkit

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"time"
	"unsafe"

	"github.com/mutecomm/mute/ctrlengine"
	"github.com/mutecomm/mute/msgdb"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/enginekit"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Engine is a control engine.
type Engine struct {
	ce          *ctrlengine.CtrlEngine
	home        string
	out, status *os.File
	// Timeout is how long a command may take.
	Timeout time.Duration
	// Online lets commands contact the servers.
	Online bool
	// Dead is set when a command crashed or hung.
	Dead bool
}

// Start makes an engine that works on db.
func Start(db *msgdb.MsgDB) *Engine {
	e := &Engine{ce: ctrlengine.New(), home: enginekit.Dir("ctrl"), Timeout: 120 * time.Second}
	var err error
	open := func(n string) *os.File {
		f, err := os.OpenFile(filepath.Join(e.home, n), os.O_CREATE|os.O_RDWR|os.O_APPEND, 0600)
		must(err)
		return f
	}
	e.out, e.status = open("out"), open("status")
	null, err := os.Open(os.DevNull)
	must(err)
	in, out, stat := os.Stdin, os.Stdout, os.Stderr
	os.Stdin, os.Stdout, os.Stderr = null, e.out, e.status
	e.Use(db)
	res, err := e.Run("db", "version")
	os.Stdin, os.Stdout, os.Stderr = in, out, stat
	must(err)
	must(res.Err)
	return e
}

func (e *Engine) field(t reflect.Type) unsafe.Pointer {
	v := reflect.ValueOf(e.ce).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == t {
			return unsafe.Pointer(v.Field(i).UnsafeAddr())
		}
	}
	panic("control engine has no field of type " + t.String())
}

// Use makes the engine work on db.
func (e *Engine) Use(db *msgdb.MsgDB) {
	*(**msgdb.MsgDB)(e.field(reflect.TypeOf(db))) = db
	*(*[]byte)(e.field(reflect.TypeOf([]byte(nil)))) = []byte(enginekit.Pass)
}

// Result is what a command did.
type Result struct {
	Out, Status string
	Err         error
}

// Run runs a command. The error tells that it crashed or hung.
func (e *Engine) Run(args ...string) (res *Result, err error) {
	a := []string{"mutectrl", "--homedir", e.home, "--logdir", filepath.Join(e.home, "log"), "--loglevel", "critical",
		"--input-fd", "stdin", "--output-fd", "stdout", "--status-fd", "stderr", "--passphrase-fd", "stdin", "--command-fd", "stdin"}
	if !e.Online {
		a = append(a, "--offline")
	}
	done := make(chan error, 1)
	res = new(Result)
	go func() {
		done <- vk.Guard(func() error { res.Err = e.ce.Start(append(a, args...)); return nil })
	}()
	select {
	case err = <-done:
		e.Dead = err != nil
	case <-time.After(e.Timeout):
		e.Dead = true
		return nil, vk.Badf("hang", "command %v does not end", args)
	}
	res.Out, res.Status = read(e.out), read(e.status)
	return res, err
}

func read(f *os.File) string {
	b, err := ioutil.ReadFile(f.Name())
	must(err)
	must(f.Truncate(0))
	return string(b)
}
