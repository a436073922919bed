// Package mixkit holds what the checks of the mix messages have in common.
package mixkit

import (
	"bytes"
	"crypto/ecdh"
	"fmt"
	"reflect"

	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/nymaddr"
	vk "github.com/mutecomm/mute/verifkit"
)

// Key is a Curve25519 key pair.
type Key struct{ Pub, Priv [32]byte }

// NewKey derives a key pair from a name (with an independent implementation).
func NewKey(name string) *Key {
	k := new(Key)
	vk.NewRand("key" + name).Read(k.Priv[:])
	p, err := ecdh.X25519().NewPrivateKey(k.Priv[:])
	if err != nil {
		panic(err)
	}
	copy(k.Pub[:], p.PublicKey().Bytes())
	return k
}

// Lookup finds the private keys of the given keys.
func Lookup(ks ...*Key) func(*[32]byte) *[32]byte {
	return func(p *[32]byte) *[32]byte {
		for _, k := range ks {
			if *p == k.Pub {
				q := k.Priv
				return &q
			}
		}
		return nil
	}
}

// Mix is an address of a mix with key k.
func Mix(k *Key, addr string, expire int64) mixaddr.Address {
	return mixaddr.Address{Pubkey: k.Pub[:], Expire: expire, Address: addr, TokenKey: vk32("token" + addr)}
}

func vk32(s string) []byte {
	b := make([]byte, 32)
	vk.NewRand(s).Read(b)
	return b
}

// B32 derives 32 bytes from a name.
func B32(s string) []byte { return vk32(s) }

// Bytes derives n bytes from a name.
func Bytes(s string, n int) []byte {
	b := make([]byte, n)
	vk.NewRand(s).Read(b)
	return b
}

// Copy copies b.
func Copy(b []byte) []byte { return append([]byte(nil), b...) }

// SameBytes tells whether a and b are equal, nil being the same as empty.
func SameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// SamePrivate compares private parts of addresses.
func SamePrivate(a, b *nymaddr.AddressPrivate) bool {
	return a != nil && b != nil && reflect.DeepEqual(norm(*a), norm(*b))
}

func norm(a nymaddr.AddressPrivate) nymaddr.AddressPrivate {
	for _, p := range []*[]byte{&a.Address, &a.Nonce, &a.ReceiverPubKey, &a.EncNym, &a.HMACHead} {
		if *p == nil {
			*p = []byte{}
		}
	}
	return a
}

// Damage calls f with every damaged form of b: each byte changed in the given
// ways, each cut, each single byte left out, and bytes added.
func Damage(b []byte, xor []byte, f func(desc string, d []byte)) {
	for i := range b {
		for _, x := range xor {
			d := Copy(b)
			d[i] ^= x
			f(fmt.Sprintf("byte %d xor %#02x", i, x), d)
		}
	}
	for i := range b {
		f(fmt.Sprintf("first %d bytes", i), Copy(b[:i]))
		f(fmt.Sprintf("last %d bytes", i), Copy(b[len(b)-i:]))
		d := append(Copy(b[:i]), b[i+1:]...)
		f(fmt.Sprintf("without byte %d", i), d)
	}
	f("one zero added", append(Copy(b), 0))
	f("one byte added", append(Copy(b), 1))
	f("doubled", append(Copy(b), b...))
}
