// c18race runs the operations named as arguments at the same time on one
// token store. Without arguments it lists them.
package main

import (
	"database/sql"
	"fmt"
	"os"
	"path/filepath"
	"sync"

	_ "github.com/mutecomm/go-sqlcipher/v4"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
)

func fail(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(1)
}

func main() {
	var st *walletstore.Storage
	var mu sync.Mutex
	got := make(map[string]int)
	took := func(hash []byte) {
		mu.Lock()
		got[string(hash)]++
		mu.Unlock()
	}
	alice, me := new([32]byte), new([32]byte)
	alice[0], me[0] = 1, 2
	tok := func(i int) client.TokenEntry {
		return client.TokenEntry{Hash: []byte{byte(i)}, Token: []byte("t"), OwnerPubKey: alice, Usage: "u", Expire: 2000000000 + int64(i)}
	}
	ops := []struct {
		name string
		f    func()
	}{
		{"lock", func() {
			if st.LockToken([]byte{0}) > 0 {
				took([]byte{0})
			}
		}},
		{"get", func() {
			t, err := st.GetAndLockToken("u", alice)
			if err == nil {
				took(t.Hash)
			} else if err != client.ErrNoToken {
				fail("get: %v", err)
			}
		}},
		{"set", func() {
			if err := st.SetToken(tok(5)); err != nil {
				fail("set: %v", err)
			}
		}},
		{"find", func() { st.FindToken("u") }},
		{"keys", func() { st.GetVerifyKeys() }},
		{"set-keys", func() { st.SetVerifyKeys([][32]byte{*alice}) }},
		{"credential", func() { st.GetAuthToken() }},
		{"set-credential", func() {
			if err := st.SetAuthToken([]byte("x"), 1); err != nil {
				fail("credential: %v", err)
			}
		}},
		{"balance", func() { st.GetBalance("u", nil) }},
		{"expire", func() { st.ExpireUnusable() }},
	}
	if len(os.Args) == 1 {
		for _, o := range ops {
			fmt.Println(o.name)
		}
		return
	}
	file := filepath.Join(os.Getenv("VK_SCRATCH"), fmt.Sprintf("race%d", os.Getpid()))
	defer os.Remove(file)
	db, err := sql.Open("sqlite3", file)
	if err != nil {
		panic(err)
	}
	db.SetMaxOpenConns(1)
	if st, err = walletstore.New(db); err != nil {
		panic(err)
	}
	for i := 0; i < 2; i++ {
		if err := st.SetToken(tok(i)); err != nil {
			panic(err)
		}
	}
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for _, a := range os.Args[1:] {
		for _, o := range ops {
			if o.name == a {
				f := o.f
				ready.Add(1)
				done.Add(1)
				go func() {
					defer done.Done()
					ready.Done()
					<-start
					f()
				}()
			}
		}
	}
	ready.Wait()
	close(start)
	done.Wait()
	for h, n := range got {
		if n > 1 {
			fail("token %x handed out %d times", h, n)
		}
	}
	st, err = walletstore.New(db)
	if err != nil {
		panic(err)
	}
	for _, a := range os.Args[1:] {
		switch a {
		case "set":
			if _, err := st.GetToken([]byte{5}, -1); err != nil {
				fail("token lost: %v", err)
			}
		case "set-keys":
			if k := st.GetVerifyKeys(); len(k) != 1 || k[0] != *alice {
				fail("keys lost: %v", k)
			}
		case "set-credential":
			if t, n := st.GetAuthToken(); string(t) != "x" || n != 1 {
				fail("credential lost: %q %d", t, n)
			}
		}
	}
}
