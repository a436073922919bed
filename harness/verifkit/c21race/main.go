// c21race runs the operations named as arguments at the same time on one pool
// of issuer keys. Without arguments it lists them.
package main

import (
	"crypto/elliptic"
	"crypto/rand"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/mutecomm/mute/serviceguard/common/keypool"
	"github.com/mutecomm/mute/serviceguard/common/keypool/keydir"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/verifkit/guardkit"
	"github.com/ronperry/cryptoedge/eccutil"
)

func fail(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(1)
}

func main() {
	is := guardkit.NewIssuer(1, "u")
	var ks []signkeys.PublicKey
	for i := 0; i < 5; i++ {
		ks = append(ks, is.Key(1000000).PublicKey)
	}
	other := guardkit.NewPair(2)
	dir := filepath.Join(os.Getenv("VK_SCRATCH"), fmt.Sprintf("race%d", os.Getpid()))
	gen := signkeys.New(elliptic.P256, rand.Reader, eccutil.Sha1Hash)
	gen.Usage, gen.PublicKey, gen.PrivateKey = "u", is.Pub, is.Priv
	kp := keypool.New(gen)

	look := func(i int) func() {
		return func() {
			for n := 0; n < 2; n++ {
				k, err := kp.Lookup(ks[i].KeyID)
				if err != nil || k.KeyID != ks[i].KeyID || k.Signature != ks[i].Signature {
					fail("key %d: %v", i, err)
				}
			}
		}
	}
	load := func(i int) func() {
		return func() {
			k := ks[i]
			if _, err := kp.LoadKey(&k); err != nil && err != keypool.ErrExists {
				fail("load: %v", err)
			}
		}
	}
	ops := []struct {
		name string
		f    func()
	}{
		{"lookup-known", look(0)},
		{"lookup-fetched", look(1)},
		{"lookup-fetched-too", look(2)},
		{"lookup-absent", func() {
			if k, err := kp.Lookup([32]byte{1}); err == nil {
				fail("unknown key: %v", k)
			}
		}},
		{"load", load(3)},
		{"load-fetched", load(1)},
		{"save", func() {
			if err := kp.SaveKey(ks[0].KeyID); err != nil {
				fail("save: %v", err)
			}
		}},
		{"has-signer", func() {
			if !kp.HasVerifyKey(is.Pub, false) {
				fail("signer not known")
			}
		}},
		{"add-signer", func() { kp.AddVerifyKey(other.Pub) }},
		{"list-signers", func() {
			if n := len(kp.ListVerifyKeys()); n != 1 && n != 2 {
				fail("%d signers", n)
			}
		}},
		{"current", func() {
			if k, _, err := kp.Current(); err != nil || k == nil {
				fail("current: %v", err)
			}
		}},
		{"load-all", func() {
			if err := kp.Load(); err != nil {
				fail("load all: %v", err)
			}
		}},
	}
	if len(os.Args) == 1 {
		for _, o := range ops {
			fmt.Println(o.name)
		}
		return
	}
	defer os.RemoveAll(dir)
	if err := keydir.Add(kp, dir); err != nil {
		panic(err)
	}
	kp.RegisterStorage(func(id []byte) ([]byte, error) {
		for i := 1; i <= 2; i++ {
			if string(id) == string(ks[i].KeyID[:]) {
				k := ks[i]
				return k.Marshal()
			}
		}
		return nil, errors.New("no such key")
	}, nil, nil)
	kp.AddVerifyKey(is.Pub)
	for _, i := range []int{0, 4} {
		k := ks[i]
		if _, err := kp.LoadKey(&k); err != nil {
			panic(err)
		}
		if err := kp.SaveKey(k.KeyID); err != nil {
			panic(err)
		}
	}
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for _, a := range os.Args[1:] {
		for _, o := range ops {
			if o.name == a {
				f := o.f
				ready.Add(1)
				done.Add(1)
				go func() {
					defer done.Done()
					ready.Done()
					<-start
					f()
				}()
			}
		}
	}
	ready.Wait()
	close(start)
	done.Wait()
	look(0)()
	look(1)()
	look(2)()
	for _, a := range os.Args[1:] {
		if a == "load" {
			look(3)()
		}
	}
}
