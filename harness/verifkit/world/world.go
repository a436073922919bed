// Package world holds parties that exchange real encrypted messages, in a form
// that can be copied, so that conversations are explored as a state space.
package world

import (
	"bytes"
	"crypto/ed25519"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"sort"
	"strings"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
	vk "github.com/mutecomm/mute/verifkit"
)

// Init directs the code's randomness to the per-goroutine source.
func Init() { cipher.RandReader = &vk.GoRand }

type sess struct {
	root, chain string
	send, recv  []string
}

type skey struct {
	jsn, priv string
	cleanup   uint64
}

// Store is the reference session store: maps with value semantics.
type Store struct {
	priv     map[string]*uid.KeyEntry // own published keys by hash
	pub      map[string]*uid.KeyEntry // others' published keys by identity
	states   map[string]*session.State
	sessions map[string]*sess
	keys     map[string]skey

	Last string // last sender key handed out
	Pubs map[string]bool
	// OnOp, if not nil, is called before every operation and may fail it.
	OnOp func(op string) error
}

// NewStore returns an empty store.
func NewStore() *Store {
	return &Store{priv: map[string]*uid.KeyEntry{}, pub: map[string]*uid.KeyEntry{},
		states: map[string]*session.State{}, sessions: map[string]*sess{},
		keys: map[string]skey{}}
}

func copyKE(k *uid.KeyEntry) *uid.KeyEntry {
	if k == nil {
		return nil
	}
	c := *k
	return &c
}

// pubKE returns the entry without its private key, as a store that keeps the
// encoded form does.
func pubKE(k *uid.KeyEntry) *uid.KeyEntry {
	if k == nil {
		return nil
	}
	c, err := uid.NewJSONKeyEntry(k.JSON())
	if err != nil {
		panic(err)
	}
	return c
}

func storedState(s *session.State) *session.State {
	c := *s
	c.RecipientTemp = *pubKE(&s.RecipientTemp)
	c.SenderSessionPub = *pubKE(&s.SenderSessionPub)
	c.NextSenderSessionPub = pubKE(s.NextSenderSessionPub)
	c.NextRecipientSessionPubSeen = pubKE(s.NextRecipientSessionPubSeen)
	return &c
}

func copyState(s *session.State) *session.State {
	if s == nil {
		return nil
	}
	c := *s
	c.NextSenderSessionPub = copyKE(s.NextSenderSessionPub)
	c.NextRecipientSessionPubSeen = copyKE(s.NextRecipientSessionPubSeen)
	return &c
}

// Clone returns an independent copy.
func (s *Store) Clone() *Store {
	c := NewStore()
	c.priv, c.pub = s.priv, s.pub // never changed after setup
	for k, v := range s.states {
		c.states[k] = v // replaced, never changed in place
	}
	for k, v := range s.sessions {
		c.sessions[k] = v // replaced, never changed in place
	}
	for k, v := range s.keys {
		c.keys[k] = v
	}
	c.Last = s.Last
	return c
}

// AddPriv adds an own published key, AddPub another's.
func (s *Store) AddPriv(ke *uid.KeyEntry)                 { s.priv[ke.HASH] = ke }
func (s *Store) AddPub(identity string, ke *uid.KeyEntry) { s.pub[identity] = ke }

func (s *Store) op(name string) error {
	if s.OnOp != nil {
		return s.OnOp(name)
	}
	return nil
}

// GetSessionState implements session.Store.
func (s *Store) GetSessionState(k string) (*session.State, error) {
	if err := s.op("GetSessionState"); err != nil {
		return nil, err
	}
	return copyState(s.states[k]), nil
}

// SetSessionState implements session.Store.
func (s *Store) SetSessionState(k string, st *session.State) error {
	if err := s.op("SetSessionState"); err != nil {
		return err
	}
	s.states[k] = storedState(st)
	return nil
}

// StoreSession implements session.Store.
func (s *Store) StoreSession(k, root, chain string, send, recv []string) error {
	if err := s.op("StoreSession"); err != nil {
		return err
	}
	if len(send) != len(recv) {
		return errors.New("store: different numbers of keys")
	}
	n := &sess{root: root, chain: chain}
	if o := s.sessions[k]; o != nil {
		n.root = o.root
		n.send = append(n.send, o.send...)
		n.recv = append(n.recv, o.recv...)
	}
	n.send = append(n.send, send...)
	n.recv = append(n.recv, recv...)
	s.sessions[k] = n
	return nil
}

// HasSession implements session.Store.
func (s *Store) HasSession(k string) bool { return s.sessions[k] != nil }

// GetPrivateKeyEntry implements session.Store.
func (s *Store) GetPrivateKeyEntry(h string) (*uid.KeyEntry, error) {
	if err := s.op("GetPrivateKeyEntry"); err != nil {
		return nil, err
	}
	if ke, ok := s.priv[h]; ok {
		return copyKE(ke), nil
	}
	return nil, session.ErrNoKeyEntry
}

// GetPublicKeyEntry implements session.Store.
func (s *Store) GetPublicKeyEntry(m *uid.Message) (*uid.KeyEntry, string, error) {
	if err := s.op("GetPublicKeyEntry"); err != nil {
		return nil, "", err
	}
	if ke, ok := s.pub[m.Identity()]; ok {
		return copyKE(ke), "nym of " + m.Identity(), nil
	}
	return nil, "", session.ErrNoKeyEntry
}

func (s *Store) get(k string) (*sess, error) {
	if x := s.sessions[k]; x != nil {
		return x, nil
	}
	return nil, errors.New("store: no such session")
}

// NumMessageKeys implements session.Store.
func (s *Store) NumMessageKeys(k string) (uint64, error) {
	if err := s.op("NumMessageKeys"); err != nil {
		return 0, err
	}
	x, err := s.get(k)
	if err != nil {
		return 0, err
	}
	return uint64(len(x.send)), nil
}

func dec(s string, n int) ([]byte, error) {
	b, err := base64.Decode(s)
	if err != nil {
		return nil, err
	}
	if len(b) != n {
		return nil, errors.New("store: key of wrong length")
	}
	return b, nil
}

// GetMessageKey implements session.Store.
func (s *Store) GetMessageKey(k string, sender bool, i uint64) (*[64]byte, error) {
	if err := s.op("GetMessageKey"); err != nil {
		return nil, err
	}
	x, err := s.get(k)
	if err != nil {
		return nil, err
	}
	l := x.recv
	if sender {
		l = x.send
	}
	if i >= uint64(len(l)) {
		return nil, errors.New("store: message index out of bounds")
	}
	if l[i] == "" {
		return nil, session.ErrMessageKeyUsed
	}
	b, err := dec(l[i], 64)
	if err != nil {
		return nil, err
	}
	if sender {
		s.Last = l[i]
	}
	var r [64]byte
	copy(r[:], b)
	return &r, nil
}

// GetRootKeyHash implements session.Store.
func (s *Store) GetRootKeyHash(k string) (*[64]byte, error) {
	if err := s.op("GetRootKeyHash"); err != nil {
		return nil, err
	}
	x, err := s.get(k)
	if err != nil {
		return nil, err
	}
	b, err := dec(x.root, 64)
	if err != nil {
		return nil, err
	}
	var r [64]byte
	copy(r[:], b)
	return &r, nil
}

// GetChainKey implements session.Store.
func (s *Store) GetChainKey(k string) (*[32]byte, error) {
	if err := s.op("GetChainKey"); err != nil {
		return nil, err
	}
	x, err := s.get(k)
	if err != nil {
		return nil, err
	}
	b, err := dec(x.chain, 32)
	if err != nil {
		return nil, err
	}
	var r [32]byte
	copy(r[:], b)
	return &r, nil
}

// DelMessageKey implements session.Store.
func (s *Store) DelMessageKey(k string, sender bool, i uint64) error {
	if err := s.op("DelMessageKey"); err != nil {
		return err
	}
	x, err := s.get(k)
	if err != nil {
		return err
	}
	if i >= uint64(len(x.send)) {
		return errors.New("store: message index out of bounds")
	}
	n := &sess{root: x.root, chain: x.chain,
		send: append([]string(nil), x.send...), recv: append([]string(nil), x.recv...)}
	if sender {
		n.send[i] = ""
	} else {
		n.recv[i] = ""
	}
	s.sessions[k] = n
	return nil
}

// AddSessionKey implements session.Store.
func (s *Store) AddSessionKey(hash, jsn, priv string, t uint64) error {
	if err := s.op("AddSessionKey"); err != nil {
		return err
	}
	s.keys[hash] = skey{jsn, priv, t}
	return nil
}

// GetSessionKey implements session.Store.
func (s *Store) GetSessionKey(hash string) (string, string, error) {
	if err := s.op("GetSessionKey"); err != nil {
		return "", "", err
	}
	if k, ok := s.keys[hash]; ok {
		return k.jsn, k.priv, nil
	}
	return "", "", session.ErrNoKeyEntry
}

// DelPrivSessionKey implements session.Store.
func (s *Store) DelPrivSessionKey(hash string) error {
	if err := s.op("DelPrivSessionKey"); err != nil {
		return err
	}
	if k, ok := s.keys[hash]; ok {
		k.priv = ""
		s.keys[hash] = k
	}
	return nil
}

// CleanupSessionKeys implements session.Store.
func (s *Store) CleanupSessionKeys(t uint64) error {
	for h, k := range s.keys {
		if k.cleanup < t {
			delete(s.keys, h)
		}
	}
	return nil
}

func dumpKE(k *uid.KeyEntry) string {
	if k == nil {
		return "-"
	}
	return k.HASH[:16]
}

// Dump returns a canonical text of the store.
func (s *Store) Dump() string {
	var l []string
	for k, v := range s.states {
		l = append(l, fmt.Sprintf("state %s %d %d %d %s %s %s %s %s %v", k[:16], v.SenderSessionCount,
			v.SenderMessageCount, v.MaxRecipientCount, v.RecipientTemp.HASH[:16], v.SenderSessionPub.HASH[:16],
			dumpKE(v.NextSenderSessionPub), dumpKE(v.NextRecipientSessionPubSeen), v.NymAddress, v.KeyInitSession))
	}
	for k, v := range s.sessions {
		l = append(l, fmt.Sprintf("sess %s %s %s %s %s", k, v.root, v.chain, strings.Join(v.send, ","), strings.Join(v.recv, ",")))
	}
	for k, v := range s.keys {
		l = append(l, fmt.Sprintf("key %s %s", k, v.priv)) // cleanup time: wall clock
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// ChainKeys returns all chain keys in the store, SecretText everything secret.
func (s *Store) ChainKeys() (r []string) {
	for _, x := range s.sessions {
		r = append(r, x.chain)
	}
	return
}

// HasMessageKey reports whether the store still holds the given message key.
func (s *Store) HasMessageKey(key string) bool {
	for _, x := range s.sessions {
		for _, k := range x.send {
			if k == key {
				return true
			}
		}
		for _, k := range x.recv {
			if k == key {
				return true
			}
		}
	}
	return false
}

// SessionPubs returns the hashes of all public session keys seen (raw SHA512).
func (s *Store) SessionPubs() (r []string) {
	for h := range s.keys {
		r = append(r, h)
	}
	return
}

// HasPrivSessionKey reports whether the private part of a session key is held.
func (s *Store) HasPrivSessionKey(hash string) bool { return s.keys[hash].priv != "" }

// Party is a user with an identity, a published key and a key store.
type Party struct {
	Name  string
	UID   *uid.Message
	KI    *uid.KeyEntry // published key, with private part
	Store *Store
	Rand  vk.CtrRand
}

// Clone returns a copy with an independent store.
func (p *Party) Clone() *Party {
	c := *p
	c.Store = p.Store.Clone()
	return &c
}

// NewParty creates a party, its identity and published key.
func NewParty(name, seed string) (*Party, error) {
	p := &Party{Name: name, Store: NewStore(), Rand: vk.CtrRand{Seed: seed + "/" + name}}
	vk.GoRand.Use(&p.Rand)
	var err error
	p.UID, err = uid.Create(name, false, "", "", uid.Strict, hashchain.TestEntry, &p.Rand)
	if err != nil {
		return nil, err
	}
	now := uint64(times.Now())
	domain := name[strings.Index(name, "@")+1:]
	ki, _, priv, err := p.UID.KeyInit(1, now+10*times.Day, now-10*times.Day, false, domain, "", "", &p.Rand)
	if err != nil {
		return nil, err
	}
	p.KI, err = ki.KeyEntryECDHE25519(p.UID.SigPubKey())
	if err != nil {
		return nil, err
	}
	if err := p.KI.SetPrivateKey(priv); err != nil {
		return nil, err
	}
	p.Store.AddPriv(p.KI)
	return p, nil
}

// Meet publishes the keys of all parties to each other.
func Meet(ps ...*Party) error {
	for _, p := range ps {
		for _, q := range ps {
			if p != q {
				pub, err := uid.NewJSONKeyEntry(q.KI.JSON())
				if err != nil {
					return err
				}
				p.Store.AddPub(q.Name, pub)
			}
		}
	}
	return nil
}

// Send encrypts content from p to q. roll makes the sender start the renewal
// of an existing session.
func (p *Party) Send(q *Party, content []byte, signed, roll bool, numKeys uint64, status msg.StatusCode) ([]byte, string, error) {
	vk.GoRand.Use(&p.Rand)
	return p.SendTo(p.Store, q.UID, content, signed, roll, numKeys, status)
}

// SendTo encrypts to the given identity with the given store.
func (p *Party) SendTo(st session.Store, to *uid.Message, content []byte, signed, roll bool, numKeys uint64, status msg.StatusCode) ([]byte, string, error) {
	avg := uint(1 << 31)
	if roll {
		avg = 1
	}
	var out bytes.Buffer
	a := &msg.EncryptArgs{Writer: &out, From: p.UID, To: to, NymAddress: "nym:" + p.Name,
		SenderLastKeychainHash: hashchain.TestEntry, Reader: bytes.NewReader(content), NumOfKeys: numKeys,
		AvgSessionSize: avg, Rand: &p.Rand, KeyStore: st, StatusCode: status}
	if signed {
		a.PrivateSigKey = p.UID.PrivateSigKey64()
	}
	nym, err := msg.Encrypt(a)
	return out.Bytes(), nym, err
}

// Opened is the result of opening a message.
type Opened struct {
	Content []byte
	Sender  string
	Sig     string
}

// Open decrypts an encoded message with p's store.
func (p *Party) Open(enc []byte, numKeys uint64) (*Opened, error) {
	vk.GoRand.Use(&p.Rand)
	return p.OpenWith(p.Store, []*uid.Message{p.UID}, enc, numKeys)
}

// OpenWith decrypts an encoded message with the given store and identities.
func (p *Party) OpenWith(st session.Store, ids []*uid.Message, enc []byte, numKeys uint64) (*Opened, error) {
	return p.OpenRaw(st, ids, base64.NewDecoder(bytes.NewReader(enc)), numKeys)
}

// OpenRaw decrypts a decoded message stream.
func (p *Party) OpenRaw(st session.Store, ids []*uid.Message, in io.Reader, numKeys uint64) (*Opened, error) {
	v, pre, err := msg.ReadFirstOuterHeader(in)
	if err != nil {
		return nil, err
	}
	if v != msg.Version {
		return nil, errors.New("wrong version")
	}
	var res bytes.Buffer
	s, sig, err := msg.Decrypt(&msg.DecryptArgs{Writer: &res, Identities: ids, PreHeader: pre, Reader: in,
		NumOfKeys: numKeys, Rand: &p.Rand, KeyStore: st})
	if err != nil {
		return nil, err
	}
	return &Opened{res.Bytes(), s, sig}, nil
}

// VerifySig checks the reported signature independently of the code's own check.
func VerifySig(from *Party, o *Opened) error {
	b, err := base64.Decode(o.Sig)
	if err != nil {
		return err
	}
	pk := from.UID.PublicSigKey32()
	if len(b) != 64 || !ed25519.Verify(pk[:], cipher.SHA512(o.Content), b) {
		return errors.New("the reported signature does not verify")
	}
	return nil
}

// Decoded returns the message without its base64 encoding.
func Decoded(enc []byte) []byte {
	b, err := ioutil.ReadAll(base64.NewDecoder(bytes.NewReader(enc)))
	if err != nil {
		panic(err)
	}
	return b
}
