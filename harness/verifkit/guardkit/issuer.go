// Package guardkit contains an issuer of service tokens for harnesses: keys,
// parameters, blind signatures and exchange, made with the same libraries the
// servers use.
package guardkit

import (
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"errors"
	"sync"

	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/ronperry/cryptoedge/eccutil"
	"github.com/ronperry/cryptoedge/jjm"
)

// Pair is an ed25519 key pair.
type Pair struct {
	Pub  *[ed25519.PublicKeySize]byte
	Priv *[ed25519.PrivateKeySize]byte
}

// NewPair makes a key pair out of a seed byte.
func NewPair(b byte) Pair {
	seed := make([]byte, ed25519.SeedSize)
	for i := range seed {
		seed[i] = b ^ byte(i*7)
	}
	k := ed25519.NewKeyFromSeed(seed)
	p := Pair{new([32]byte), new([64]byte)}
	copy(p.Priv[:], k)
	copy(p.Pub[:], k[32:])
	return p
}

// Issuer signs tokens of one usage.
type Issuer struct {
	Pair
	Usage string
	Gen   *signkeys.KeyGenerator
	Curve *eccutil.Curve

	mu     sync.Mutex
	keys   map[[32]byte]*signkeys.KeyPair
	params map[string]jjm.BlindingParamServer
}

// NewIssuer makes an issuer out of a seed byte.
func NewIssuer(b byte, usage string) *Issuer {
	is := &Issuer{Pair: NewPair(b), Usage: usage, keys: make(map[[32]byte]*signkeys.KeyPair),
		params: make(map[string]jjm.BlindingParamServer)}
	is.Gen = signkeys.New(elliptic.P256, rand.Reader, eccutil.Sha1Hash)
	is.Gen.Usage = usage
	is.Gen.PublicKey, is.Gen.PrivateKey = is.Pub, is.Priv
	is.Curve = is.Gen.Curve
	return is
}

// Key makes a signing key which expires after s seconds.
func (is *Issuer) Key(s int64) *signkeys.KeyPair {
	is.mu.Lock()
	defer is.mu.Unlock()
	is.Gen.ExpireTime = s
	kp, err := is.Gen.GenKey()
	if err != nil {
		panic(err)
	}
	is.keys[kp.PublicKey.KeyID] = kp
	return kp
}

// Params makes parameters for one signature under a key.
func (is *Issuer) Params(kp *signkeys.KeyPair, canReissue bool) []byte {
	pk, err := kp.PublicKey.Marshal()
	if err != nil {
		panic(err)
	}
	for {
		cp, sp, err := jjm.NewGenericBlindingServer(kp.PrivateKey, &kp.PublicKey.PublicKey, is.Curve).GetParams()
		if err != nil {
			panic(err)
		}
		p := types.Params{PublicKey: pk, PublicParams: cp.(jjm.BlindingParamClient), PrivateParams: []byte("sealed"), CanReissue: canReissue}
		enc, err := p.Marshal()
		if err != nil {
			panic(err)
		}
		is.mu.Lock()
		is.params[string(enc)] = sp.(jjm.BlindingParamServer)
		is.mu.Unlock()
		return enc
	}
}

// Sign signs a blind message under parameters made before.
func (is *Issuer) Sign(params, blind []byte) (reply, pubkey []byte, err error) {
	pk, _, _, _, err := types.UnmarshalParams(params)
	if err != nil {
		return nil, nil, err
	}
	is.mu.Lock()
	kp, sp, ok := is.keys[pk.KeyID], is.params[string(params)], true
	if kp == nil {
		ok = false
	}
	if _, have := is.params[string(params)]; !have {
		ok = false
	}
	is.mu.Unlock()
	if !ok {
		return nil, nil, errors.New("issuer: parameters have expired")
	}
	bm, err := jjm.NewBlindMessage(&kp.PublicKey.PublicKey).Unmarshal(blind)
	if err != nil {
		return nil, nil, errors.New("issuer: bad package")
	}
	sig, err := jjm.NewGenericBlindingServer(kp.PrivateKey, &kp.PublicKey.PublicKey, is.Curve).Sign(sp, bm)
	if err != nil {
		return nil, nil, err
	}
	reply, err = sig.Marshal()
	if err != nil {
		return nil, nil, err
	}
	pubkey, err = kp.PublicKey.Marshal()
	return reply, pubkey, err
}

// Blinded is a token blinded for signing.
type Blinded struct {
	Token   *token.Token
	Message []byte
	Factors jjm.BlindingFactors
}

// Issue makes a signed token under a key (owner nil: none).
func (is *Issuer) Issue(kp *signkeys.KeyPair, owner *[ed25519.PublicKeySize]byte) *token.Token {
	for {
		t := token.New(&kp.PublicKey.KeyID, owner)
		if t == nil {
			panic("no token")
		}
		params := is.Params(kp, false)
		_, pp, _, _, err := types.UnmarshalParams(params)
		if err != nil {
			panic(err)
		}
		cl := jjm.NewGenericBlindingClient(&kp.PublicKey.PublicKey, is.Curve)
		bp := jjm.NewBlindingParamClient(&kp.PublicKey.PublicKey)
		bp.PointRs1, bp.PointRs2, bp.ScalarLs1, bp.ScalarLs2 = pp.PointRs1, pp.PointRs2, pp.ScalarLs1, pp.ScalarLs2
		cm := jjm.NewClearMessage(t.Hash())
		bf, bm, err := cl.Blind(bp, cm)
		if err != nil {
			continue
		}
		enc, err := bm.Marshal()
		if err != nil {
			panic(err)
		}
		rep, _, err := is.Sign(params, enc)
		if err != nil {
			continue
		}
		bs, err := jjm.NewBlindSignature(&kp.PublicKey.PublicKey).Unmarshal(rep)
		if err != nil {
			panic(err)
		}
		sig, _, err := cl.Unblind(bf, cm, bs)
		if err != nil {
			continue
		}
		if ok, err := cl.Verify(sig, cm); !ok || err != nil {
			continue
		}
		cs := sig.(jjm.ClearSignature)
		t.AddSignature(&cs)
		return t
	}
}

// IssueBytes is Issue, encoded.
func (is *Issuer) IssueBytes(kp *signkeys.KeyPair, owner *[ed25519.PublicKeySize]byte) []byte {
	b, err := is.Issue(kp, owner).Marshal()
	if err != nil {
		panic(err)
	}
	return b
}

// Adopt takes over a signing key of another issuer.
func (is *Issuer) Adopt(kp *signkeys.KeyPair) {
	is.mu.Lock()
	is.keys[kp.PublicKey.KeyID] = kp
	is.mu.Unlock()
}
