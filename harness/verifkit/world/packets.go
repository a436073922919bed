package world

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"strings"

	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/uid"
	vk "github.com/mutecomm/mute/verifkit"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/nacl/box"
)

// Packets splits a decoded message into its packets.
func Packets(dec []byte) ([][]byte, error) {
	var r [][]byte
	for len(dec) > 0 {
		if len(dec) < 7 {
			return nil, errors.New("packets: short header")
		}
		n := 7 + int(binary.BigEndian.Uint16(dec[1:3]))
		if len(dec) < n {
			return nil, errors.New("packets: short packet")
		}
		r = append(r, dec[:n])
		dec = dec[n:]
	}
	return r, nil
}

// WithCount returns the packet with another packet count.
func WithCount(p []byte, n int) []byte {
	q := append([]byte(nil), p...)
	binary.BigEndian.PutUint32(q[3:7], uint32(n))
	return q
}

// Join puts packets together.
func Join(ps [][]byte) []byte { return bytes.Join(ps, nil) }

// Encode encodes a message.
func Encode(dec []byte) []byte {
	var b bytes.Buffer
	w := base64.NewEncoder(&b)
	w.Write(dec)
	w.Close()
	return b.Bytes()
}

// ForgeHeader opens the header of a message to rcpt, lets edit change it and
// seals it again under a fresh header key, as the (malicious) sender could.
func ForgeHeader(dec []byte, rcpt *Party, rnd *vk.CtrRand, edit func(h map[string]interface{})) ([]byte, error) {
	ps, err := Packets(dec)
	if err != nil {
		return nil, err
	}
	pre, hdr := ps[0], ps[1]
	jsn, h, err := header(pre, hdr, rcpt)
	if err != nil {
		return nil, err
	}
	var nonce [24]byte
	edit(h)
	h["Padding"] = ""
	out, err := json.Marshal(h)
	if err != nil {
		return nil, err
	}
	if len(out) > len(jsn) {
		return nil, errors.New("forge: header too long")
	}
	h["Padding"] = strings.Repeat("0", len(jsn)-len(out))
	if out, err = json.Marshal(h); err != nil {
		return nil, err
	}
	var priv, npub [32]byte
	rnd.Read(priv[:])
	curve25519.ScalarBaseMult(&npub, &priv)
	rnd.Read(nonce[:])
	pre2 := append([]byte(nil), pre...)
	copy(pre2[len(pre2)-32:], npub[:])
	hdr2 := append([]byte(nil), hdr[:7]...)
	hdr2 = append(hdr2, nonce[:]...)
	hdr2 = append(hdr2, hdr[31:33]...)
	hdr2 = box.Seal(hdr2, out, &nonce, rcpt.UID.PubKey().PublicKey32(), &priv)
	if len(hdr2) != len(hdr) {
		return nil, errors.New("forge: header size changed")
	}
	ps[0], ps[1] = pre2, hdr2
	return Join(ps), nil
}

// header opens a header packet as rcpt.
func header(pre, hdr []byte, rcpt *Party) ([]byte, map[string]interface{}, error) {
	var pub [32]byte
	copy(pub[:], pre[len(pre)-32:])
	var nonce [24]byte
	copy(nonce[:], hdr[7:31])
	jsn, ok := box.Open(nil, hdr[33:], &nonce, &pub, rcpt.UID.PubKey().PrivateKey32())
	if !ok {
		return nil, nil, errors.New("world: cannot open header")
	}
	d := json.NewDecoder(bytes.NewReader(jsn))
	d.UseNumber()
	var h map[string]interface{}
	if err := d.Decode(&h); err != nil {
		return nil, nil, err
	}
	return jsn, h, nil
}

// Header returns the header of a message to rcpt.
func Header(dec []byte, rcpt *Party) (map[string]interface{}, error) {
	ps, err := Packets(dec)
	if err != nil {
		return nil, err
	}
	_, h, err := header(ps[0], ps[1], rcpt)
	return h, err
}

// KEMap returns a key entry as it appears in a header.
func KEMap(ke *uid.KeyEntry) map[string]interface{} {
	return map[string]interface{}{"CIPHERSUITE": ke.CIPHERSUITE, "FUNCTION": ke.FUNCTION,
		"HASH": ke.HASH, "PUBKEY": ke.PUBKEY}
}
