// C15: nym addresses. All settings are made into addresses and opened; every
// damaged, cut or recombined address and every other key is tried; the choice
// of the mix is compared with the expiry of the mixes' keys.
package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/uid/identity"
	"github.com/mutecomm/mute/util"
	vk "github.com/mutecomm/mute/verifkit"
	"github.com/mutecomm/mute/verifkit/clock"
	"github.com/mutecomm/mute/verifkit/mixkit"
)

var r *vk.R

const now = 1500000000

var keys = []*mixkit.Key{mixkit.NewKey("a"), mixkit.NewKey("b"), mixkit.NewKey("c")}

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

func tmpl(k int, expire int64) nymaddr.AddressTemplate {
	return nymaddr.AddressTemplate{
		Secret:        []byte("the secret"),
		MixCandidates: mixaddr.AddressList{mixkit.Mix(keys[k], fmt.Sprintf("mix%d@mute.one", k), now+100000)},
		Expire:        expire, SingleUse: true, MinDelay: 4, MaxDelay: 9,
	}
}

var mailboxes = [][]byte{nil, []byte("a"), []byte(strings.Repeat("0f", 32) + "@rr.accounts."), mixkit.Bytes("m", 300), {0}, {0xff, 0x80}}

// open opens an address as a mix with key k and returns the private part.
func open(addr []byte, ks ...*mixkit.Key) (*nymaddr.Address, *nymaddr.AddressPrivate, error) {
	a, err := nymaddr.ParseAddress(addr)
	if err != nil {
		return nil, nil, err
	}
	p, err := a.GetMixData(nymaddr.KeyFunc(mixkit.Lookup(ks...)))
	if err != nil {
		return nil, nil, err
	}
	return a, p, nil
}

func roundtrips() {
	type job struct {
		d  string
		t  nymaddr.AddressTemplate
		mb []byte
	}
	var jobs []job
	for mi, mb := range mailboxes {
		for si, secret := range [][]byte{nil, []byte("s"), mixkit.Bytes("s", 32), mixkit.Bytes("s", 200)} {
			for _, single := range []bool{false, true} {
				for _, exp := range []int64{now + 1, now + 128, now + 86400, 1<<62 + 12345} {
					for _, d := range [][2]int32{{0, 0}, {1, 2}, {127, 128}, {1<<31 - 1, -1 << 31}, {-1, 300}} {
						t := nymaddr.AddressTemplate{Secret: secret, Expire: exp, SingleUse: single, MinDelay: d[0], MaxDelay: d[1],
							MixCandidates: mixaddr.AddressList{mixkit.Mix(keys[si%3], "mix@mute.one", 1<<62+99999)}}
						jobs = append(jobs, job{fmt.Sprintf("mailbox %d secret %d single %v expire %d delays %v", mi, si, single, exp, d), t, mb})
					}
				}
			}
		}
	}
	r.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		do(j.d, func() error {
			nym := mixkit.B32(fmt.Sprint("nym", i))
			// usually a hash, but any bytes may be given
			if i%3 == 1 {
				nym = mixkit.Bytes(fmt.Sprint("nym", i), i/3%70)
			} else if i%3 == 2 && i%2 == 0 {
				nym[31] = 0
			}
			in := mixkit.Copy(nym)
			addr, err := j.t.NewAddress(j.mb, in)
			if err != nil {
				return vk.Badf("new address", "%v", err)
			}
			if !bytes.Equal(in, nym) {
				return vk.Badf("pseudonym changed", "")
			}
			nym = append(mixkit.Copy(nym), make([]byte, 32)...)[:32] // what is used of it
			mix := j.t.MixCandidates[0]
			var k *mixkit.Key
			for _, x := range keys {
				if bytes.Equal(x.Pub[:], mix.Pubkey) {
					k = x
				}
			}
			var first *nymaddr.AddressPrivate
			for round := 0; round < 2; round++ { // opening does not use the address up
				a, p, err := open(addr, k)
				if err != nil {
					return vk.Badf("open", "%v", err)
				}
				if string(a.MixAddress) != mix.Address || a.Expire != j.t.Expire || a.SingleUse != j.t.SingleUse ||
					!bytes.Equal(a.TokenPubKey, mix.TokenKey) || !bytes.Equal(a.MixPubKey, mix.Pubkey) {
					return vk.Badf("public part", "%+v", *a)
				}
				if !bytes.Equal(p.Address, j.mb) || p.Expire != j.t.Expire || p.SingleUse != j.t.SingleUse || p.MinDelay != j.t.MinDelay ||
					p.MaxDelay != j.t.MaxDelay || p.System != 0 {
					return vk.Badf("private part", "%+v", *p)
				}
				if bytes.Contains(addr, nym) || (len(j.mb) > 8 && bytes.Contains(addr, j.mb)) {
					return vk.Badf("address shows its content", "%x", addr)
				}
				if (p.GetUnique() != nil) != j.t.SingleUse {
					return vk.Badf("single use", "%x", p.GetUnique())
				}
				if first != nil && !mixkit.SamePrivate(first, p) {
					return vk.Badf("opening twice differs", "")
				}
				first = p
				h, secret, err := p.GetHeader()
				if err != nil {
					return vk.Badf("header", "%v", err)
				}
				rt := nymaddr.AddressTemplate{Secret: j.t.Secret}
				n2, s2, err := rt.GetPrivate(mixkit.Copy(h), j.mb)
				if err != nil || !bytes.Equal(n2, nym) || !bytes.Equal(secret, s2) {
					return vk.Badf("recipient", "%v %x", err, n2)
				}
				for _, o := range mailboxes {
					if bytes.Equal(o, j.mb) {
						continue
					}
					if _, _, err := rt.GetPrivate(mixkit.Copy(h), o); err == nil {
						return vk.Badf("recipient: another mailbox", "%q", o)
					}
				}
				rt.Secret = append(mixkit.Copy(j.t.Secret), 'x')
				if _, _, err := rt.GetPrivate(mixkit.Copy(h), j.mb); err == nil {
					return vk.Badf("recipient: another secret", "")
				}
			}
			// other mixes
			for _, x := range keys {
				if x == k {
					continue
				}
				if _, _, err := open(addr, x); err == nil {
					return vk.Badf("opened by another mix", "")
				}
				a, err := nymaddr.ParseAddress(addr)
				if err != nil {
					return err
				}
				if p, err := a.GetMixData(func(*[32]byte) *[32]byte { q := x.Priv; return &q }); err == nil {
					return vk.Badf("opened with another key", "%+v", *p)
				}
			}
			r.Trace()
			return nil
		})
	})
}

// damage: whatever is done to an address, it opens to its own private part or
// not at all.
func damage() {
	type job struct {
		d    string
		b    []byte
		weak bool // may open, to the same content
	}
	var jobs []job
	xor := []byte{1, 2, 4, 8, 16, 32, 64, 128, 255}
	for v := 0; v < r.Pick(6, 24); v++ {
		t := tmpl(0, now+1000)
		t.SingleUse = v%2 == 0
		mb := mailboxes[2]
		if v%3 == 1 {
			mb = mailboxes[1]
		}
		one, err := t.NewAddress(mb, mixkit.B32("n1"))
		if err != nil {
			panic(err)
		}
		two, _ := t.NewAddress(mailboxes[3], mixkit.B32("n2"))
		three, _ := tmpl(1, now+2000).NewAddress(mailboxes[2], mixkit.B32("n3"))
		_, want, err := open(one, keys...)
		if err != nil {
			panic(err)
		}
		jobs = nil
		mixkit.Damage(one, xor, func(d string, b []byte) { jobs = append(jobs, job{d, b, true}) })
		var a, b, c nymaddr.Address
		asn1.Unmarshal(one, &a)
		asn1.Unmarshal(two, &b)
		asn1.Unmarshal(three, &c)
		at := bytes.Index(one, a.PrivateData)
		for i := 0; i < len(a.PrivateData); i++ {
			for x := 1; x < 256; x++ {
				m := mixkit.Copy(one)
				m[at+i] ^= byte(x)
				jobs = append(jobs, job{fmt.Sprintf("private byte %d xor %#x", i, x), m, false})
			}
		}
		for i := 0; i <= len(a.PrivateData)+3; i++ {
			x := a
			if i < len(a.PrivateData) {
				x.PrivateData = a.PrivateData[:i]
			} else {
				x.PrivateData = append(mixkit.Copy(a.PrivateData), make([]byte, i-len(a.PrivateData)+1)...)
			}
			m, _ := asn1.Marshal(x)
			jobs = append(jobs, job{fmt.Sprintf("private part cut or grown to %d", i), m, false})
			if i < len(a.PrivateData) {
				x.PrivateData = a.PrivateData[i:]
				if i > 0 {
					m, _ = asn1.Marshal(x)
					jobs = append(jobs, job{fmt.Sprintf("private part without its first %d bytes", i), m, false})
				}
			}
		}
		for i := 0; i < 32; i++ {
			x := a
			x.AddressKey = mixkit.Copy(a.AddressKey)[:i]
			m, _ := asn1.Marshal(x)
			jobs = append(jobs, job{fmt.Sprintf("address key cut to %d", i), m, false})
			x = a
			x.MixPubKey = mixkit.Copy(a.MixPubKey)[:i]
			m, _ = asn1.Marshal(x)
			jobs = append(jobs, job{fmt.Sprintf("mix key cut to %d", i), m, false})
			for bit := uint(0); bit < 8; bit++ {
				x = a
				x.AddressKey = mixkit.Copy(a.AddressKey)
				x.AddressKey[i] ^= 1 << bit
				m, _ = asn1.Marshal(x)
				jobs = append(jobs, job{fmt.Sprintf("address key byte %d bit %d", i, bit), m, i == 31 && bit == 7})
			}
		}
		for _, src := range []struct {
			n string
			a nymaddr.Address
		}{{"same mix", b}, {"other mix", c}} {
			for mask := 1; mask < 8; mask++ {
				x := a
				if mask&1 != 0 {
					x.MixPubKey = src.a.MixPubKey
				}
				if mask&2 != 0 {
					x.AddressKey = src.a.AddressKey
				}
				if mask&4 != 0 {
					x.PrivateData = src.a.PrivateData
				}
				if mask == 7 || (src.n == "same mix" && mask == 6) {
					continue // that is the other address
				}
				m, _ := asn1.Marshal(x)
				jobs = append(jobs, job{fmt.Sprintf("parts %03b of an address for the %s", mask, src.n), m, src.n == "same mix" && mask == 1})
			}
		}
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			do(fmt.Sprintf("address %d: %s", v, j.d), func() error {
				in := mixkit.Copy(j.b)
				_, p, err := open(j.b, keys...)
				if !bytes.Equal(in, j.b) {
					return vk.Badf("input changed", "%s", j.d)
				}
				if err != nil {
					r.Outcome("refused")
					return nil
				}
				r.Outcome("opened to its own content")
				if !j.weak {
					return vk.Badf("damaged private part accepted", "%s", j.d)
				}
				if !mixkit.SamePrivate(p, want) {
					return vk.Badf("damaged address opens to other content", "%s: %+v", j.d, *p)
				}
				return nil
			})
		})
		// the header a mix makes of it
		h, _, err := want.GetHeader()
		if err != nil {
			panic(err)
		}
		rt := nymaddr.AddressTemplate{Secret: t.Secret}
		n1, s1, err := rt.GetPrivate(mixkit.Copy(h), mb)
		if err != nil {
			panic(err)
		}
		jobs = nil
		mixkit.Damage(h, xor, func(d string, b []byte) { jobs = append(jobs, job{d, b, false}) })
		r.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			do(fmt.Sprintf("header %d: %s", v, j.d), func() error {
				n, s, err := rt.GetPrivate(j.b, mb)
				if err != nil {
					return nil
				}
				// the sender's key is not authenticated: another key gives
				// another secret, and the message is refused
				if !bytes.Equal(n, n1) {
					return vk.Badf("damaged header names another pseudonym", "%s: %x", j.d, n)
				}
				_ = s
				return nil
			})
		})
		_ = s1
	}
}

// expired: neither made from expired mix keys, nor parsed or opened after
// their own expiry, even if the public part says otherwise.
func expired() {
	for _, dt := range []int64{-100, -1, 1, 2, 100, 5000} {
		dt := dt
		do(fmt.Sprintf("address expiring after %d", dt), func() error {
			addr, err := tmpl(0, now+dt).NewAddress(mailboxes[2], mixkit.B32("n"))
			if err != nil {
				return nil // refusing right away is as good
			}
			var a nymaddr.Address
			asn1.Unmarshal(addr, &a)
			a.Expire = now + 50000
			later, _ := asn1.Marshal(a)
			if _, err := nymaddr.ParseAddress(addr); (err == nil) != (dt > 0) {
				return vk.Badf("expired address used", "after %d: %v", dt, err)
			}
			for k, x := range [][]byte{addr, later} {
				_, _, err := open(x, keys[0])
				if dt < 0 && err == nil {
					return vk.Badf("expired address opened", "variant %d", k)
				}
				if dt > 0 && err != nil {
					return vk.Badf("valid address refused", "variant %d: %v", k, err)
				}
			}
			return nil
		})
	}
	// all lists of up to four mixes with these expiry times
	offs := []int64{-1000, -1, 0, 1, 999, 1000, 1001, 5000}
	var lists [][]int
	vk.Sequences(len(offs), r.Pick(4, 5), func(seq []int) { lists = append(lists, append([]int(nil), seq...)) })
	r.Parallel(len(lists), func(i int) {
		for _, exp := range []int64{0, now - 10, now + 1000} {
			exp := exp
			do(fmt.Sprintf("mixes %v address expiry %d", lists[i], exp), func() error {
				var l mixaddr.AddressList
				usable := 0
				lim := exp
				if lim == 0 {
					lim = now
				}
				for k, o := range lists[i] {
					l = append(l, mixkit.Mix(keys[0], fmt.Sprintf("mix%d@x", k), now+offs[o]))
					if now+offs[o] > lim {
						usable++
					}
				}
				for round := 0; round < 4; round++ {
					addr, err := nymaddr.AddressTemplate{MixCandidates: l, Expire: exp, Secret: []byte("x")}.NewAddress([]byte("m"), mixkit.B32("n"))
					if usable == 0 {
						if err == nil {
							return vk.Badf("expired mix chosen", "no mix is valid until %d", exp)
						}
						continue
					}
					if err != nil {
						return vk.Badf("no mix chosen", "%v", err)
					}
					var a nymaddr.Address
					asn1.Unmarshal(addr, &a)
					ok := false
					for _, m := range l {
						if m.Address == string(a.MixAddress) && m.Expire > lim {
							ok = true
						}
					}
					if !ok {
						return vk.Badf("expired mix chosen", "%s", a.MixAddress)
					}
				}
				return nil
			})
		}
	})
}

// whole: util.NewNymAddress against a key server.
func whole() {
	_, priv, _ := ed25519.GenerateKey(vk.NewRand("statement"))
	var pk [64]byte
	copy(pk[:], priv)
	var list mixaddr.AddressList
	srv := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		b, _ := json.Marshal(list.Statement(&pk))
		w.Write(b)
	}))
	defer srv.Close()
	ca := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: srv.Certificate().Raw})
	client.GetMixAddress = func(string) (string, error) { return strings.TrimPrefix(srv.URL, "https://"), nil }
	util.MixAddress = "mix@mute.one"
	list = mixaddr.AddressList{
		mixkit.Mix(keys[0], "old@mute.one", now+10),
		mixkit.Mix(keys[1], "new@mute.one", now+100000),
		mixkit.Mix(keys[2], "gone@mute.one", now-10),
	}
	names := []string{"alice", "alice1", "1alice", "bob", "al.ice", "a.lice", "alic", "alice-x", "ali", "bobalice"}
	domains := []string{"mute.one", "mute.berlin", "mute.onex"}
	var box [32]byte
	copy(box[:], mixkit.B32("box"))
	wantBox := []byte(hex.EncodeToString(box[:]) + "@rr.accounts.")
	secret := mixkit.B32("nym secret")
	seen := make(map[string]string)
	for _, n := range names {
		for _, d := range domains {
			id, err := identity.Map(n + "@" + d)
			if err != nil {
				continue
			}
			for v, opt := range []struct {
				single   bool
				min, max int32
			}{{false, 0, 0}, {true, 10, 30}} {
				id, opt := id, opt
				do(fmt.Sprintf("NewNymAddress %s %d", id, v), func() error {
					mix, na, err := util.NewNymAddress("mute.one", secret, now+1000, opt.single, opt.min, opt.max, id, &box, "rr.accounts.mute.one", ca)
					if err != nil {
						return vk.Badf("NewNymAddress", "%v", err)
					}
					if mix != "new@mute.one" {
						return vk.Badf("NewNymAddress mix", "%s", mix)
					}
					b, err := base64.Decode(na)
					if err != nil {
						return vk.Badf("NewNymAddress encoding", "%v", err)
					}
					_, p, err := open(b, keys...)
					if err != nil {
						return vk.Badf("NewNymAddress open", "%v", err)
					}
					if !bytes.Equal(p.Address, wantBox) || p.Expire != now+1000 || p.SingleUse != opt.single || p.MinDelay != opt.min || p.MaxDelay != opt.max {
						return vk.Badf("NewNymAddress content", "%+v", *p)
					}
					h, _, err := p.GetHeader()
					if err != nil {
						return err
					}
					nym, _, err := nymaddr.AddressTemplate{Secret: secret}.GetPrivate(h, wantBox)
					if err != nil {
						return vk.Badf("NewNymAddress recipient", "%v", err)
					}
					if s := sha256.Sum256([]byte(id)); !bytes.Equal(nym, s[:]) {
						return vk.Badf("pseudonym", "%s: %x", id, nym)
					}
					if o, ok := seen[string(nym)]; ok && o != id {
						return vk.Badf("pseudonym shared", "%s and %s", o, id)
					}
					seen[string(nym)] = id
					return nil
				})
			}
		}
	}
	for _, bad := range []string{"Alice@mute.one", "", "x", "@mute.one"} {
		bad := bad
		do("NewNymAddress "+bad, func() error {
			if _, _, err := util.NewNymAddress("mute.one", secret, now+1000, false, 0, 0, bad, &box, "rr.accounts.mute.one", ca); err == nil {
				return vk.Badf("unmapped identity accepted", "%q", bad)
			}
			return nil
		})
	}
	for _, l := range []mixaddr.AddressList{nil, {mixkit.Mix(keys[0], "old@mute.one", now+10)}} {
		l := l
		do(fmt.Sprintf("NewNymAddress with %d expired mixes", len(l)), func() error {
			list = l
			if _, _, err := util.NewNymAddress("mute.one", secret, now+1000, false, 0, 0, "alice@mute.one", &box, "rr.accounts.mute.one", ca); err == nil {
				return vk.Badf("no mix, but an address", "")
			}
			return nil
		})
	}
}

func main() {
	r = vk.Start("C15")
	clock.Freeze(now)
	roundtrips()
	damage()
	expired()
	whole()
	if r.Expired() {
		r.Cap("deadline")
	}
	r.Done()
}
