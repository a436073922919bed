// The programs mutectrl, mutecrypt and muteproto (selected by the name it is
// called by), which announce every step on which they could fail or die to
// the check that runs them.
package main

import (
	"bytes"
	"errors"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/mutecomm/mute/cryptengine"
	"github.com/mutecomm/mute/ctrlengine"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/protoengine"
	"github.com/mutecomm/mute/util"
	_ "github.com/mutecomm/mute/verifkit/quickdb"
)

var (
	ctl  = -1 // the connection to the check
	mu   sync.Mutex
	name string
)

// event announces a step; false tells that it must fail.
func event(what string) bool {
	if ctl < 0 {
		return true
	}
	mu.Lock()
	defer mu.Unlock()
	b := []byte{0}
	_, err := syscall.Write(ctl, []byte(name+"."+what+"\n"))
	if err == nil {
		for {
			var n int
			if n, err = syscall.Read(ctl, b); err != syscall.EINTR {
				if err == nil && n == 0 {
					err = errInjected
				}
				break
			}
		}
	}
	switch {
	case err != nil || b[0] == 'k':
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	case b[0] == 'f':
		return false
	}
	return true
}

var errInjected = errors.New("injected failure")

func main() {
	args := os.Args
	name = filepath.Base(args[0])
	sub := "loop"
	for i := 1; i < len(args); i++ {
		if !strings.HasPrefix(args[i], "-") {
			sub = args[i]
			break
		}
		if args[i] != "--offline" && args[i] != "--keyserver" {
			i++
		}
	}
	if name != "mutectrl" {
		name += "-" + sub
	}
	if a := os.Getenv("VK_CTL"); a != "" {
		connect(a)
	}
	announceCommits()
	client.GetMixAddress = func(string) (string, error) { return os.Getenv("VK_TLS"), nil }
	if !event("start") {
		util.Fatal(errInjected)
	}
	var err error
	switch {
	case name == "mutectrl":
		ce := ctrlengine.New()
		err = ce.Start(args)
		ce.Close()
	case strings.HasPrefix(name, "mutecrypt"):
		ce := cryptengine.New()
		err = ce.Start(args)
		ce.Close()
	default:
		if sub == "deliver" {
			redirect()
		}
		err = protoengine.New().Run(args)
	}
	if err == nil && !event("end") {
		err = errInjected
	}
	if err != nil {
		util.Fatal(err)
	}
}

// connect connects to the check, leaving the low file descriptors alone.
func connect(a string) {
	fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
	if err == nil {
		err = syscall.Connect(fd, &syscall.SockaddrUnix{Name: a})
	}
	if err != nil {
		util.Fatal(err)
	}
	n, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(fd), syscall.F_DUPFD_CLOEXEC, 200)
	if e != 0 {
		util.Fatal(e)
	}
	syscall.Close(fd)
	ctl = int(n)
}

// redirect makes an envelope on standard input go to the check's mail server.
func redirect() {
	in, err := ioutil.ReadAll(os.Stdin)
	if err != nil {
		util.Fatal(err)
	}
	out := in
	if b, err := base64.Decode(string(in)); err == nil {
		mo := client.MessageMarshalled(b).Unmarshal()
		if mo.Error == nil && mo.Message != nil {
			mo.SMTPPort, _ = strconv.Atoi(os.Getenv("VK_SMTP"))
			mo.SmartHost = "127.0.0.1"
			if m := mo.Marshal(); m != nil {
				out = []byte(base64.Encode(m))
			}
		}
	}
	r, w, err := os.Pipe()
	if err != nil {
		util.Fatal(err)
	}
	go func() {
		bytes.NewReader(out).WriteTo(w)
		w.Close()
	}()
	os.Stdin = r
}
