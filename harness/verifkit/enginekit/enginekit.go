// Package enginekit makes homes for the control engine: a message database
// with a configuration and a wallet key.
package enginekit

import (
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"sync/atomic"

	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/def"
	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/release"
	_ "github.com/mutecomm/mute/verifkit/quickdb"
)

// Pass is the passphrase of all databases.
const Pass = "pass phrase"

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func scratch() string {
	if d := os.Getenv("VK_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

var count int64

// Dir returns a new directory.
func Dir(kind string) string {
	d := filepath.Join(scratch(), fmt.Sprintf("%s%d", kind, atomic.AddInt64(&count, 1)))
	must(os.MkdirAll(d, 0700))
	return d
}

// Key returns a private key made of a seed byte.
func Key(b byte) ed25519.PrivateKey {
	seed := make([]byte, ed25519.SeedSize)
	for i := range seed {
		seed[i] = b ^ byte(i*5)
	}
	return ed25519.NewKeyFromSeed(seed)
}

// Config returns a complete configuration, changed by over.
func Config(over map[string]string) string {
	pub := hex.EncodeToString(Key(1).Public().(ed25519.PublicKey))
	m := map[string]string{
		"mixclient.MixAddress":    "mix@mix.example",
		"mixclient.AccountServer": "accounts.example",
		"mixclient.Sender":        "mute@mute.one",
		"walletrpc.ServiceURL":    "http://127.0.0.1:1/wallet",
		"keylookup.ServiceURL":    "http://127.0.0.1:1/lookup",
		"guardrpc.ServiceURL":     "http://127.0.0.1:1/guard",
		"serviceguard.TrustRoot":  pub,
		"mix.MaxDelay":            "86400",
		"muteaccd.owner":          pub,
		"muteaccd.usage":          "Account",
		"release.Commit":          release.Commit,
		"release.Date":            release.Date,
	}
	for k, v := range over {
		if v == "" {
			delete(m, k)
		} else {
			m[k] = v
		}
	}
	jsn, err := json.Marshal(&configclient.Config{Map: m})
	must(err)
	return string(jsn)
}

// Store stores a configuration fetched at the given time, and a wallet key.
func Store(db *msgdb.MsgDB, config string, fetched int64) {
	netDomain, _, _ := def.ConfigParams()
	must(db.AddValue(netDomain, config))
	must(db.AddValue("time."+netDomain, strconv.FormatInt(fetched, 10)))
	must(db.AddValue(msgdb.WalletKey, base64.StdEncoding.EncodeToString(Key(2))))
}

// Template is the content of a message database.
type Template struct{ DB, Key []byte }

// New makes a template.
func New(f func(db *msgdb.MsgDB)) *Template {
	n := filepath.Join(Dir("tmpl"), "msgs")
	must(msgdb.Create(n, []byte(Pass), 1))
	db, err := msgdb.Open(n, []byte(Pass))
	must(err)
	if f != nil {
		f(db)
	}
	must(db.Close())
	t := new(Template)
	t.DB, err = ioutil.ReadFile(n + ".db")
	must(err)
	t.Key, err = ioutil.ReadFile(n + ".key")
	must(err)
	must(os.RemoveAll(filepath.Dir(n)))
	return t
}

// Home makes a home directory out of a template.
func (t *Template) Home() string {
	h := Dir("home")
	t.Write(h)
	return h
}

// Write puts the template into a directory.
func (t *Template) Write(home string) {
	n := filepath.Join(home, "msgs")
	must(ioutil.WriteFile(n+".db", t.DB, 0600))
	must(ioutil.WriteFile(n+".key", t.Key, 0600))
}
