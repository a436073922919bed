// Package cryptkit drives mutecrypt's command engine in this process, with a
// key server that answers whatever a check wants.
package cryptkit

import (
	"bufio"
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/mutecomm/mute/cryptengine"
	"github.com/mutecomm/mute/cryptengine/cache"
	"github.com/mutecomm/mute/def"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/uid"
	vk "github.com/mutecomm/mute/verifkit"
	_ "github.com/mutecomm/mute/verifkit/quickdb"
)

// Pass is the passphrase of all databases.
var Pass = []byte("pass phrase")

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func scratch() string {
	if d := os.Getenv("VK_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

var count int64

// Template is a key database to start from.
type Template struct{ db, key []byte }

// Empty creates an empty database.
func Empty() *Template {
	n := filepath.Join(scratch(), fmt.Sprintf("t%d", atomic.AddInt64(&count, 1)))
	must(keydb.Create(n, Pass, 1))
	return load(n)
}

func load(n string) *Template {
	t := new(Template)
	var err error
	t.db, err = ioutil.ReadFile(n + ".db")
	must(err)
	t.key, err = ioutil.ReadFile(n + ".key")
	must(err)
	return t
}

// DB is an open copy of a template.
type DB struct {
	*keydb.KeyDB
	name string
}

// Open opens a copy of the template.
func (t *Template) Open() *DB {
	d := &DB{name: filepath.Join(scratch(), fmt.Sprintf("k%d", atomic.AddInt64(&count, 1)))}
	must(ioutil.WriteFile(d.name+".db", t.db, 0600))
	must(ioutil.WriteFile(d.name+".key", t.key, 0600))
	var err error
	d.KeyDB, err = keydb.Open(d.name, Pass)
	must(err)
	return d
}

// With returns a template with what f did to a copy.
func (t *Template) With(f func(db *DB)) *Template {
	d := t.Open()
	f(d)
	must(d.KeyDB.Close())
	n := load(d.name)
	d.Drop()
	return n
}

// Drop closes and removes the database.
func (d *DB) Drop() {
	d.KeyDB.Close()
	os.Remove(d.name + ".db")
	os.Remove(d.name + ".key")
}

// Engine is a running command engine.
type Engine struct {
	ce    *cryptengine.CryptEngine
	cmd   *os.File
	out   *os.File
	lines chan string
	died  chan error
	dead  bool
}

// Start starts an engine. It must not be used by several goroutines.
func Start() *Engine {
	e := &Engine{ce: cryptengine.New(), lines: make(chan string, 1000), died: make(chan error, 1)}
	cmdR, cmdW, err := os.Pipe()
	must(err)
	statR, statW, err := os.Pipe()
	must(err)
	e.cmd = cmdW
	dir := filepath.Join(scratch(), fmt.Sprintf("e%d", atomic.AddInt64(&count, 1)))
	must(os.MkdirAll(dir, 0700))
	e.out, err = os.OpenFile(filepath.Join(dir, "out"), os.O_CREATE|os.O_RDWR|os.O_APPEND, 0600)
	must(err)
	go func() {
		s := bufio.NewScanner(statR)
		s.Buffer(nil, 1<<24)
		for s.Scan() {
			e.lines <- s.Text()
		}
	}()
	in, out, stat := os.Stdin, os.Stdout, os.Stderr
	os.Stdin, os.Stdout, os.Stderr = cmdR, e.out, statW
	go func() {
		err := vk.Guard(func() error {
			return e.ce.Start([]string{"mutecrypt", "--keyserver", "--homedir", dir, "--logdir", filepath.Join(dir, "log"), "--loglevel", "critical",
				"--input-fd", "stdin", "--output-fd", "stdout", "--status-fd", "stderr", "--passphrase-fd", "stdin", "--command-fd", "stdin"})
		})
		if err == nil {
			err = fmt.Errorf("engine stopped")
		}
		e.died <- err
	}()
	_, _, err = e.Run("sentinel")
	os.Stdin, os.Stdout, os.Stderr = in, out, stat
	must(err)
	return e
}

// field returns a pointer to the engine's field of type t.
func (e *Engine) field(t reflect.Type) unsafe.Pointer {
	v := reflect.ValueOf(e.ce).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == t {
			return unsafe.Pointer(v.Field(i).UnsafeAddr())
		}
	}
	panic("crypt engine has no field of type " + t.String())
}

// Use makes the engine work on db, as if it was started anew.
func (e *Engine) Use(db *keydb.KeyDB) {
	*(**keydb.KeyDB)(e.field(reflect.TypeOf(db))) = db
	c := cache.New()
	*(**cache.Cache)(e.field(reflect.TypeOf(c))) = c
}

// Dead tells whether the engine crashed.
func (e *Engine) Dead() bool { return e.dead }

const sentinel = "end-of-command"

// Run runs a command line and returns what it wrote on status, without the
// final READY., and on output. A crash is an error.
func (e *Engine) Run(line string) (status []string, output string, err error) {
	if _, err := fmt.Fprintf(e.cmd, "%s\n%s\n", line, sentinel); err != nil {
		return nil, "", err
	}
	for {
		select {
		case err := <-e.died:
			e.dead = true
			e.cmd.Close()
			return status, "", err
		case l := <-e.lines:
			if !strings.Contains(l, "'"+sentinel+"'") {
				status = append(status, l)
				continue
			}
			<-e.lines // READY.
			b, err := ioutil.ReadFile(e.out.Name())
			must(err)
			must(e.out.Truncate(0))
			if n := len(status); n > 0 && status[n-1] == "READY." {
				status = status[:n-1]
			}
			return status, string(b), nil
		case <-time.After(60 * time.Second):
			return status, "", vk.Badf("hang", "command %q does not end", line)
		}
	}
}

// Close ends the engine.
func (e *Engine) Close() {
	e.cmd.Close()
	if !e.dead {
		<-e.died
	}
}

// Server is a key server. Answer gives the result of a method.
type Server struct {
	URL string
	// Answer returns the JSON text of a method's result.
	Answer func(method string, params map[string]interface{}) []byte
	// Raw, if set, may write any response itself; false lets Answer do it.
	Raw func(w http.ResponseWriter, method string, id string) bool
}

// Serve starts a server for the given domains.
func Serve(domains ...string) *Server {
	s := new(Server)
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		b, _ := ioutil.ReadAll(q.Body)
		var req struct {
			Method string
			Params map[string]interface{}
			Id     json.RawMessage
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if d.Decode(&req) != nil {
			http.Error(w, "bad request", 400)
			return
		}
		if s.Raw != nil && s.Raw(w, req.Method, string(req.Id)) {
			return
		}
		w.Header().Set("Content-Type", "application/json")
		res := s.Answer(req.Method, req.Params)
		if res == nil {
			fmt.Fprintf(w, `{"jsonrpc":"2.0","error":{"code":-32000,"message":"no"},"id":%s}`, req.Id)
			return
		}
		fmt.Fprintf(w, `{"jsonrpc":"2.0","result":%s,"id":%s}`, res, req.Id)
	}))
	srv.Config.SetKeepAlivesEnabled(false)
	srv.Start()
	s.URL = srv.URL
	if def.ConfigMap == nil {
		def.ConfigMap = make(map[string]string)
	}
	for _, d := range domains {
		def.ConfigMap["keyserver."+d] = srv.URL
	}
	return s
}

// Methods are the methods a key server announces.
var Methods = []string{"KeyRepository.Capabilities", "KeyHashchain.FetchLastHashChain", "KeyHashchain.FetchHashChain", "KeyHashchain.LookupUID",
	"KeyRepository.FetchUID", "KeyRepository.CreateUID", "KeyRepository.UpdateUID", "KeyInitRepository.AddKeyInit", "KeyInitRepository.FetchKeyInit",
	"KeyInitRepository.FlushKeyInit"}

// B64 encodes.
func B64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// Raw64 decodes.
func Raw64(s string) ([]byte, bool) {
	b, err := base64.StdEncoding.DecodeString(s)
	return b, err == nil
}

func h256(b ...[]byte) []byte {
	h := sha256.New()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

func h512(b ...[]byte) []byte {
	h := sha512.New()
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

func xor(b []byte, c byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[i] = b[i] ^ c
	}
	return o
}

// CKDF is the cheap key derivation function of the specification.
func CKDF(nonce []byte) (k1, k2 []byte) {
	a := h512(nonce)
	a1 := append(append([]byte(nil), a[:32]...), a[:32]...)
	a2 := append(append([]byte(nil), a[32:]...), a[32:]...)
	k1 = h512(xor(a1, 0x5c), h512(xor(a2, 0x36)))
	k2 = h512(xor(a2, 0x5c), h512(xor(a1, 0x36)))
	return
}

// Entry is a hash chain entry in its parts.
type Entry struct{ Hash, Type, Nonce, HashID, CrUID, Index []byte }

// Link computes the hash of the entry after prev (nil for the first).
func (e *Entry) Link(prev []byte) {
	if prev == nil {
		prev = make([]byte, 32)
	}
	e.Hash = h256(e.Type, e.Nonce, e.HashID, e.CrUID, e.Index, prev)
}

// Text is the encoded entry.
func (e *Entry) Text() string {
	return B64(bytes.Join([][]byte{e.Hash, e.Type, e.Nonce, e.HashID, e.CrUID, e.Index}, nil))
}

// Parse splits an encoded entry.
func Parse(s string) (*Entry, bool) {
	b, ok := Raw64(s)
	if !ok || len(b) != 153 || b[32] != 1 {
		return nil, false
	}
	return &Entry{b[:32], b[32:33], b[33:41], b[41:73], b[73:121], b[121:]}, true
}

// For tells whether the entry is one of identity id, and with which key its
// CrUID is encrypted.
func (e *Entry) For(id string) (key []byte, ok bool) {
	k1, k2 := CKDF(e.Nonce)
	return h256(k2, []byte(id)), bytes.Equal(e.HashID, h256(k1, []byte(id)))
}

// UIDHash decrypts CrUID.
func (e *Entry) UIDHash(key []byte) []byte {
	blk, err := aes.NewCipher(key)
	must(err)
	out := make([]byte, 32)
	stdcipher.NewCBCDecrypter(blk, e.CrUID[:16]).CryptBlocks(out, e.CrUID[16:])
	return out
}

// Made is an entry with the encrypted message it refers to.
type Made struct {
	Entry
	Enc string // UIDMessageEncrypted
}

// Make makes the entry and the encrypted form of a message text, the entry
// not linked yet.
func Make(id string, text []byte, seed string) *Made {
	rnd := vk.NewRand("entry" + seed)
	m := new(Made)
	m.Type = []byte{1}
	m.Nonce = make([]byte, 8)
	rnd.Read(m.Nonce)
	k1, k2 := CKDF(m.Nonce)
	m.HashID = h256(k1, []byte(id))
	hash := h256(text)
	m.Index = h256(hash)
	blk, err := aes.NewCipher(h256(k2, []byte(id)))
	must(err)
	m.CrUID = make([]byte, 48)
	rnd.Read(m.CrUID[:16])
	stdcipher.NewCBCEncrypter(blk, m.CrUID[:16]).CryptBlocks(m.CrUID[16:], hash)
	m.Enc = Encrypt(hash, text, rnd)
	return m
}

// Encrypt encrypts a message text under its hash.
func Encrypt(hash, text []byte, rnd *vk.Rand) string {
	iv := make([]byte, 16)
	rnd.Read(iv)
	blk, err := aes.NewCipher(hash)
	must(err)
	out := make([]byte, len(text))
	stdcipher.NewCTR(blk, iv).XORKeyStream(out, text)
	return B64(bytes.Join([][]byte{h256(hash), iv, out}, nil))
}

// Decrypt is the reverse of Encrypt.
func Decrypt(hash []byte, enc string) (index, text []byte, ok bool) {
	b, ok := Raw64(enc)
	if !ok || len(b) < 48 {
		return nil, nil, false
	}
	blk, err := aes.NewCipher(hash)
	must(err)
	out := make([]byte, len(b)-48)
	stdcipher.NewCTR(blk, b[32:48]).XORKeyStream(out, b[48:])
	return b[:32], out, true
}

// EntryText is what a server signs.
func EntryText(enc, entry string, pos uint64) []byte {
	b, err := json.Marshal(map[string]interface{}{"UIDMESSAGEENCRYPTED": enc, "HASHCHAINENTRY": entry, "HASHCHAINPOS": pos})
	must(err)
	return b
}

// Reply is the answer of a server with the given key.
func Reply(key ed25519.PrivateKey, enc, entry string, pos uint64) []byte {
	b, err := json.Marshal(map[string]interface{}{
		"ENTRY":           map[string]interface{}{"UIDMESSAGEENCRYPTED": enc, "HASHCHAINENTRY": entry, "HASHCHAINPOS": pos},
		"SERVERSIGNATURE": B64(ed25519.Sign(key, EntryText(enc, entry, pos))),
	})
	must(err)
	return b
}

// SigKey is the private signature key of an identity.
func SigKey(m *uid.Message) ed25519.PrivateKey {
	return append(ed25519.PrivateKey(nil), m.PrivateSigKey64()[:]...)
}
