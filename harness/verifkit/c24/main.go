// C24: the elementary encodings, compared with independent references.
package main

import (
	"bytes"
	"crypto/aes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net/mail"
	"net/textproto"
	"regexp"
	"strconv"
	"strings"

	"github.com/mutecomm/mute/cipher/aes256"
	"github.com/mutecomm/mute/encode"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/mix/smtpclient"
	"github.com/mutecomm/mute/msg/msgid"
	"github.com/mutecomm/mute/msg/padding"
	"github.com/mutecomm/mute/util/digits"
	vk "github.com/mutecomm/mute/verifkit"
)

var r *vk.R

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

// refuses reports whether f refuses its input, by an error or a (documented)
// panic.
func refuses(f func()) (refused bool) {
	defer func() {
		if recover() != nil {
			refused = true
		}
	}()
	f()
	return
}

// shortReader delivers n bytes and then fails.
type shortReader struct{ n int }

func (s *shortReader) Read(p []byte) (int, error) {
	if s.n == 0 {
		return 0, errors.New("no more randomness")
	}
	n := len(p)
	if n > s.n {
		n = s.n
	}
	for i := range p[:n] {
		p[i] = byte(i)
	}
	s.n -= n
	return n, nil
}

func integers() {
	vals := []byte{0, 1, 0x7f, 0x80, 0xff}
	n := 5 * 5 * 5 * 5
	r.Parallel(n, func(i int) {
		for j := 0; j < n; j++ {
			b := make([]byte, 8)
			x, y := i, j
			for k := 0; k < 4; k++ {
				b[k], b[k+4] = vals[x%5], vals[y%5]
				x, y = x/5, y/5
			}
			do(fmt.Sprintf("uint64 %x", b), func() error {
				var want uint64
				for k := 7; k >= 0; k-- {
					want = want*256 + uint64(b[k])
				}
				if got := encode.ToUint64(b); got != want {
					return vk.Badf("touint64", "%x gives %d, want %d", b, got, want)
				}
				if got := encode.ToByte8(want); !bytes.Equal(got, b) {
					return vk.Badf("tobyte8", "%d gives %x, want %x", want, got, b)
				}
				return nil
			})
		}
	})
	for i := 0; i < 65536; i++ {
		b := []byte{byte(i), byte(i >> 8)}
		do(fmt.Sprintf("uint16 %d", i), func() error {
			if got := encode.ToUint16(b); got != uint16(i) {
				return vk.Badf("touint16", "%x gives %d", b, got)
			}
			if got := encode.ToByte2(uint16(i)); !bytes.Equal(got, b) {
				return vk.Badf("tobyte2", "%d gives %x", i, got)
			}
			if i < 256 {
				if got := encode.ToByte1(uint8(i)); len(got) != 1 || got[0] != uint8(i) {
					return vk.Badf("tobyte1", "%d gives %x", i, got)
				}
			}
			return nil
		})
	}
	for l := 0; l < 40; l++ {
		b := make([]byte, l)
		do(fmt.Sprintf("integers of %d bytes", l), func() error {
			if refuses(func() { encode.ToUint64(b) }) != (l != 8) {
				return vk.Badf("touint64:length", "ToUint64 of %d bytes: refused: %v", l, l == 8)
			}
			if refuses(func() { encode.ToUint16(b) }) != (l != 2) {
				return vk.Badf("touint16:length", "ToUint16 of %d bytes: refused: %v", l, l == 2)
			}
			return nil
		})
	}
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func refEncode(b []byte) string {
	var s []byte
	for i := 0; i < len(b); i += 3 {
		var v uint
		n := 0
		for k := 0; k < 3; k++ {
			v <<= 8
			if i+k < len(b) {
				v |= uint(b[i+k])
				n++
			}
		}
		for k := 0; k < 4; k++ {
			if k <= n {
				s = append(s, b64[v>>uint(18-6*k)&63])
			} else {
				s = append(s, '=')
			}
		}
	}
	return string(s)
}

// refDecode decodes strictly but for line breaks; loose tells that only bits
// that do not matter are set.
func refDecode(s string) (b []byte, ok, loose bool) {
	s = strings.Replace(strings.Replace(s, "\n", "", -1), "\r", "", -1)
	if len(s)%4 != 0 {
		return nil, false, false
	}
	for i := 0; i < len(s); i += 4 {
		var v, n uint
		for k := 0; k < 4; k++ {
			c := strings.IndexByte(b64, s[i+k])
			if c < 0 {
				if s[i+k] != '=' || i+4 != len(s) || k < 2 || k == 2 && s[i+3] != '=' {
					return nil, false, false
				}
				c = 0
			} else {
				n++
			}
			v = v<<6 | uint(c)
		}
		for k := uint(0); k < n-1; k++ {
			b = append(b, byte(v>>(16-8*k)))
		}
		if v&(1<<(8*(4-n))-1) != 0 && n < 4 {
			loose = true
		}
	}
	return b, true, loose
}

func baseEncoding() {
	check := func(b []byte) {
		do(fmt.Sprintf("base64 of %x", b), func() error {
			s := base64.Encode(b)
			if s != refEncode(b) {
				return vk.Badf("base64:encode", "%x gives %q", b, s)
			}
			d, err := base64.Decode(s)
			if err != nil || !bytes.Equal(d, b) {
				return vk.Badf("base64:decode", "%q gives %x, %v", s, d, err)
			}
			if len(b) > 2 || len(b) == 2 && b[1]%16 != 0 {
				return nil
			}
			var w bytes.Buffer
			e := base64.NewEncoder(&w)
			for i := range b {
				e.Write(b[i : i+1])
			}
			e.Close()
			d, err = ioutil.ReadAll(base64.NewDecoder(&w))
			if err != nil || !bytes.Equal(d, b) {
				return vk.Badf("base64:stream", "%x gives %x, %v", b, d, err)
			}
			return nil
		})
	}
	check(nil)
	r.Parallel(256, func(i int) {
		check([]byte{byte(i)})
		for j := 0; j < 256; j++ {
			check([]byte{byte(i), byte(j)})
			for _, k := range []byte{0, 1, 62, 63, 0x80, 0xff} {
				check([]byte{byte(i), byte(j), k})
			}
		}
	})
	for l := 3; l < 200; l++ {
		b := make([]byte, l)
		vk.NewRand("b").Read(b)
		check(b)
	}
	alpha := "AQgw/+=_-\n\r \x00\xe9z"
	n := r.Pick(5, 6)
	r.Parallel(len(alpha)*len(alpha), func(i int) {
		var rec func(s string)
		rec = func(s string) {
			do(fmt.Sprintf("base64 text %q", s), func() error {
				b, ok, loose := refDecode(s)
				d, err := base64.Decode(s)
				if err != nil && ok && !loose || err == nil && (!ok || !bytes.Equal(d, b)) {
					return vk.Badf("base64:text", "%q gives %x, %v, want %x, accepted: %v", s, d, err, b, ok)
				}
				return nil
			})
			if len(s) < n {
				for k := range alpha {
					rec(s + alpha[k:k+1])
				}
			}
		}
		rec(alpha[i/len(alpha):i/len(alpha)+1] + alpha[i%len(alpha):i%len(alpha)+1])
	})
}

func count() {
	var vals []uint64
	for i := uint64(0); i < 100000; i++ {
		vals = append(vals, i)
	}
	for k, p := 0, uint64(1); k < 64; k, p = k+1, p*2 {
		vals = append(vals, p-1, p, p+1)
	}
	for k, p := 0, uint64(1); k < 20; k, p = k+1, p*10 {
		for d := uint64(0); d < 5; d++ {
			vals = append(vals, p-d, p+d, 9*p+d, 9*p-d)
		}
	}
	vals = append(vals, ^uint64(0), ^uint64(0)-1)
	for _, v := range vals {
		v := v
		do(fmt.Sprintf("digits %d", v), func() error {
			if n := digits.Count(v); n != len(strconv.FormatUint(v, 10)) {
				return vk.Badf("digits", "Count(%d) = %d", v, n)
			}
			return nil
		})
	}
}

func paddings() {
	for l := 0; l <= r.Pick(2200, 20000); l++ {
		l := l
		do(fmt.Sprintf("padding of %d", l), func() error {
			a, err := padding.Generate(l, vk.NewRand("p"))
			if err != nil || len(a) != l {
				return vk.Badf("padding:length", "%d bytes of padding asked, got %d, %v", l, len(a), err)
			}
			b, err := padding.Generate(l, vk.NewRand("q"))
			if err != nil || len(b) != l {
				return vk.Badf("padding:length", "%d bytes of padding asked, got %d, %v", l, len(b), err)
			}
			if l >= 8 && bytes.Equal(a, b) {
				return vk.Badf("padding:constant", "the same %d bytes of padding from different randomness", l)
			}
			if l >= 8 && (bytes.Equal(a, make([]byte, l)) || bytes.Equal(a[l-8:], make([]byte, 8))) {
				return vk.Badf("padding:zero", "%d bytes of padding end with zeros", l)
			}
			return nil
		})
	}
	for _, l := range []int{1, 2, 31, 32, 33, 64, 500} {
		need := l
		if l > 32 {
			need = 32
		}
		for n := 0; n < need; n++ {
			do(fmt.Sprintf("padding of %d from %d random bytes", l, n), func() error {
				if p, err := padding.Generate(l, &shortReader{n}); err == nil {
					return vk.Badf("padding:short", "%d bytes of padding made from %d random bytes: %x", l, n, p)
				}
				return nil
			})
		}
	}
}

var idForm = regexp.MustCompile(`^[0-9]{4}-(0[1-9]|1[0-2])-[0-9a-f]{32}-`)

func ids() {
	senders := []string{"abc@d", "a-b-c@mute.berlin", "a.b.c@x-y-z", "abc@", "iohn@mute.berlin", strings.Repeat("a", 64) + "@" + strings.Repeat("d-", 90)}
	for _, s := range senders {
		s := s
		do("message id of "+s, func() error {
			seen := map[string]bool{}
			rnd := vk.NewRand("ids" + s)
			for i := 0; i < 50; i++ {
				id, err := msgid.Generate(s, rnd)
				if err != nil || !idForm.MatchString(id) || !strings.HasSuffix(id, "-"+s) || len(id) != 8+33+len(s) {
					return vk.Badf("msgid:form", "%q, %v", id, err)
				}
				if seen[id[8:]] {
					return vk.Badf("msgid:repeated", "%q twice", id)
				}
				seen[id[8:]] = true
				if p := msgid.Parse(id); p != s {
					return vk.Badf("msgid:parse", "%q gives %q", id, p)
				}
				for n := 0; n < 41; n++ {
					if p := msgid.Parse(id[:n]); p != "" {
						return vk.Badf("msgid:cut", "%q gives %q", id[:n], p)
					}
				}
			}
			for n := 0; n < 16; n++ {
				if id, err := msgid.Generate(s, &shortReader{n}); err == nil {
					return vk.Badf("msgid:short", "%q made from %d random bytes", id, n)
				}
			}
			return nil
		})
	}
}

// refCTR is counter mode made from the block cipher.
func refCTR(key, iv, p []byte) []byte {
	block, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	ctr := append([]byte(nil), iv...)
	out := make([]byte, len(p))
	var ks [16]byte
	for i := range p {
		if i%16 == 0 {
			block.Encrypt(ks[:], ctr)
			for k := 15; k >= 0; k-- {
				ctr[k]++
				if ctr[k] != 0 {
					break
				}
			}
		}
		out[i] = p[i] ^ ks[i%16]
	}
	return out
}

func refCBC(key, iv, p []byte) []byte {
	block, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	prev := append([]byte(nil), iv...)
	var out []byte
	for i := 0; i < len(p); i += 16 {
		var x [16]byte
		for k := range x {
			x[k] = p[i+k] ^ prev[k]
		}
		block.Encrypt(x[:], x[:])
		out = append(out, x[:]...)
		prev = x[:]
	}
	return out
}

// fixed delivers given bytes as randomness.
func fixed(b []byte) io.Reader { return bytes.NewReader(b) }

func symmetric() {
	ivs := [][]byte{make([]byte, 16), bytes.Repeat([]byte{0xff}, 16), append(make([]byte, 8), bytes.Repeat([]byte{0xff}, 8)...)}
	key := make([]byte, 32)
	vk.NewRand("k").Read(key)
	text := make([]byte, 3000)
	vk.NewRand("t").Read(text)
	max := r.Pick(300, 3000)
	for n := 0; n <= max; n++ {
		for vi, iv := range ivs {
			iv, p := iv, append([]byte(nil), text[:n]...)
			do(fmt.Sprintf("aes %d bytes, iv %d", n, vi), func() error {
				c := aes256.CTREncrypt(key, p, fixed(iv))
				if !bytes.Equal(c, append(append([]byte(nil), iv...), refCTR(key, iv, p)...)) {
					return vk.Badf("ctr:encrypt", "%d bytes", n)
				}
				if d := aes256.CTRDecrypt(key, c); !bytes.Equal(d, p) {
					return vk.Badf("ctr:decrypt", "%d bytes", n)
				}
				s := append([]byte(nil), p...)
				aes256.CTRStream(key, iv).XORKeyStream(s, s)
				if !bytes.Equal(s, c[16:]) {
					return vk.Badf("ctr:stream", "%d bytes", n)
				}
				if refuses(func() { c = aes256.CBCEncrypt(key, p, fixed(iv)) }) != (n%16 != 0) {
					return vk.Badf("cbc:length", "encryption of %d bytes: refused: %v", n, n%16 == 0)
				}
				if n%16 == 0 {
					if !bytes.Equal(c, append(append([]byte(nil), iv...), refCBC(key, iv, p)...)) {
						return vk.Badf("cbc:encrypt", "%d bytes", n)
					}
					if d := aes256.CBCDecrypt(key, c); !bytes.Equal(d, p) {
						return vk.Badf("cbc:decrypt", "%d bytes", n)
					}
				}
				if !bytes.Equal(p, text[:n]) {
					return vk.Badf("aes:input", "encryption of %d bytes changed its input", n)
				}
				if refuses(func() { aes256.CTRDecrypt(key, p) }) != (n < 16) {
					return vk.Badf("ctr:short", "decryption of %d bytes: refused: %v", n, n >= 16)
				}
				if refuses(func() { aes256.CBCDecrypt(key, p) }) != (n < 16 || n%16 != 0) {
					return vk.Badf("cbc:short", "decryption of %d bytes: refused: %v", n, !(n < 16 || n%16 != 0))
				}
				return nil
			})
		}
	}
	for l := 0; l <= 66; l++ {
		k := make([]byte, l)
		do(fmt.Sprintf("aes key of %d bytes", l), func() error {
			iv := make([]byte, 16)
			c := make([]byte, 32)
			for name, f := range map[string]func(){
				"CTREncrypt": func() { aes256.CTREncrypt(k, c, fixed(iv)) },
				"CTRDecrypt": func() { aes256.CTRDecrypt(k, c) },
				"CBCEncrypt": func() { aes256.CBCEncrypt(k, c, fixed(iv)) },
				"CBCDecrypt": func() { aes256.CBCDecrypt(k, c) },
				"CTRStream":  func() { aes256.CTRStream(k, iv) }} {
				if refuses(f) != (l != 32) {
					return vk.Badf("aes:key", "%s with a key of %d bytes: refused: %v", name, l, l == 32)
				}
			}
			if refuses(func() { aes256.CTRStream(make([]byte, 32), k) }) != (l != 16) {
				return vk.Badf("aes:iv", "CTRStream with an IV of %d bytes", l)
			}
			if l < 16 && (!refuses(func() { aes256.CTREncrypt(key, c, &shortReader{l}) }) || !refuses(func() { aes256.CBCEncrypt(key, c, &shortReader{l}) })) {
				return vk.Badf("aes:random", "encrypted with %d random bytes", l)
			}
			return nil
		})
	}
}

func mails() {
	lens := map[int]bool{}
	for n := 0; n <= r.Pick(700, 4000); n++ {
		lens[n] = true
	}
	// the largest bodies that can be read
	max := client.MaxMessageSize
	fits := func(n int) int { // characters in the mail's body
		l := (n + 2) / 3 * 4
		if l > 72 {
			l += (l - 1) / 72 * 2
		}
		return l
	}
	edge := max * 3 / 4
	for fits(edge) > max {
		edge--
	}
	for n := edge - 60; n < edge+60; n++ {
		lens[n] = true
	}
	lens[4*max], lens[20000], lens[100000] = true, true, true
	text := make([]byte, 4*max)
	vk.NewRand("mail").Read(text)
	var list []int
	for n := range lens {
		list = append(list, n)
	}
	r.Parallel(len(list), func(i int) {
		n := list[i]
		do(fmt.Sprintf("mail of %d bytes", n), func() error {
			m := client.WriteMail("sender@example.com", "receiver@mix.example.com", text[:n])
			for _, l := range strings.Split(string(m), "\r\n") {
				if len(l) > 998 || strings.ContainsAny(l, "\r\n") {
					return vk.Badf("mail:lines", "a line of %d characters or with a lone line break in a mail of %d bytes", len(l), n)
				}
			}
			pm, err := mail.ReadMessage(bytes.NewReader(m))
			if err != nil || pm.Header.Get("From") != "sender@example.com" || pm.Header.Get("To") != "receiver@mix.example.com" {
				return vk.Badf("mail:header", "header %v, %v", pm, err)
			}
			for _, nl := range []string{"\r\n", "\n"} { // as it was, and as some servers keep it
				x := bytes.Replace(m, []byte("\r\n"), []byte(nl), -1)
				raw, err := mail.ReadMessage(bytes.NewReader(x))
				if err != nil {
					return err
				}
				rb, err := ioutil.ReadAll(raw.Body)
				if err != nil {
					return err
				}
				b, err := client.ReadMail(x)
				if len(rb) <= max {
					if err != nil || !bytes.Equal(b, text[:n]) {
						return vk.Badf("mail:read", "mail of %d bytes gives %d bytes, %v", n, len(b), err)
					}
				} else if err == nil {
					return vk.Badf("mail:size", "mail of %d bytes, %d encoded, was accepted", n, len(rb))
				}
			}
			if n <= 200 {
				for k := range m {
					b, err := client.ReadMail(m[:k])
					if err == nil && !bytes.HasPrefix(text[:n], b) {
						return vk.Badf("mail:cut", "the first %d bytes of a mail of %d give %x", k, n, b)
					}
				}
			}
			return nil
		})
	})
	hdr := string(client.WriteMail("a@b.example", "c@d.example", nil))
	// mails whose lines others have broken anew, around the largest size
	enc := base64.Encode(text[:(max+300)/4*3])
	widths := []int{0, 1, 2, 3, 4, 5, 7, 8, 16, 60, 64, 70, 71, 72, 73, 74, 75, 76, 77, 78, 100, 128, 200, 900}
	r.Parallel(len(widths), func(i int) {
		for _, nl := range []string{"\r\n", "\n"} {
			w := widths[i]
			for l := -8; l <= 24; l++ { // characters beyond the largest size
				var body []byte
				k := 0
				for len(body) < max+l {
					body = append(body, enc[k])
					if k++; w > 0 && k%w == 0 {
						body = append(body, nl...)
					}
				}
				n := k / 4 * 4
				for ; k > n; k-- {
					body[bytes.LastIndexByte(body, enc[k-1])] = '\n'
				}
				size := len(body)
				do(fmt.Sprintf("mail of %d characters in lines of %d (%q)", size, w, nl), func() error {
					b, err := client.ReadMail([]byte(hdr + string(body)))
					if size > max && err == nil {
						return vk.Badf("mail:size", "a mail body of %d characters was accepted, giving %d bytes", size, len(b))
					}
					if size <= max && (err != nil || !bytes.Equal(b, text[:n/4*3])) {
						return vk.Badf("mail:read", "a mail body of %d characters gives %d bytes, %v", size, len(b), err)
					}
					return nil
				})
			}
		}
	})
	for _, c := range []struct {
		body string
		ok   bool
	}{{"", true}, {"QQ==", true}, {"QQ==\r\n", true}, {"QQ==\n\n", true}, {"QQ", false}, {"Q", false}, {"Q Q==", false}, {"QQ=", false}, {"QQ=\r\n=", true}, {"--", false}, {"\x00", false}, {"QUJD\r\nQUJD", true}} {
		do(fmt.Sprintf("mail body %q", c.body), func() error {
			b, err := client.ReadMail([]byte(hdr + c.body))
			if (err == nil) != c.ok {
				return vk.Badf("mail:body", "a body of %q gives %x, %v", c.body, b, err)
			}
			return nil
		})
	}
	alpha := []string{"a: b", ":", " x", "\r\n", "\n", "\r", "QUJD", "", "\x00", "From "}
	vk.Sequences(len(alpha), 5, func(seq []int) {
		s := ""
		for _, k := range seq {
			s += alpha[k]
		}
		do(fmt.Sprintf("mail %q", s), func() error {
			client.ReadMail([]byte(s))
			return nil
		})
	})
}

func records() {
	bs := [][]byte{nil, {}, []byte("x"), bytes.Repeat([]byte{0}, 127), bytes.Repeat([]byte{0xff}, 128), bytes.Repeat([]byte("abc"), 40000)}
	strs := []string{"", "a@b.c", "*&_'", "\u00e9@x", strings.Repeat("s", 200)}
	ports := []int{0, 25, 587, 65535, 128, 1 << 30, -1}
	errs := []error{nil, client.ErrNIL, client.ErrAlreadySent, client.ErrMaxSize, smtpclient.ErrNoHost, smtpclient.ErrNoTLS,
		smtpclient.ErrNoAuth, smtpclient.ErrFinal, smtpclient.ErrRetry, mixcrypt.ErrNoKeys, mixcrypt.ErrTooShort, mixcrypt.ErrSize,
		mixcrypt.ErrBadSystem, nymaddr.ErrNoMix, nymaddr.ErrNoKey, nymaddr.ErrExpired, nymaddr.ErrHMAC, nymaddr.ErrBadKey,
		errors.New("some other error"), &textproto.Error{Code: 451, Msg: "4.7.1 100% greylisted: \u00fcberlastet"}, errors.New("%s %d %!")}
	var all []*client.MessageOutput
	base := func() *client.MessageOutput {
		return &client.MessageOutput{Message: []byte("message"), To: "to@x", From: "from@y", RevokeID: []byte("id"), SMTPPort: 25,
			SmartHost: "host", CACert: []byte("cert"), Resend: true}
	}
	for _, e := range errs {
		for _, rs := range []bool{true, false} {
			for i := range bs {
				for j := range strs {
					for _, p := range ports {
						m := base()
						m.Error, m.Resend, m.SMTPPort = e, rs, p
						m.Message, m.RevokeID, m.CACert = bs[i], bs[(i+j)%4], bs[(i+2*j)%5]
						m.To, m.From, m.SmartHost = strs[j], strs[(i+j)%5], strs[(j+1)%5]
						all = append(all, m)
					}
				}
			}
		}
	}
	same := func(a, b *client.MessageOutput) error {
		if !bytes.Equal(a.Message, b.Message) || a.To != b.To || a.From != b.From || !bytes.Equal(a.RevokeID, b.RevokeID) || a.SMTPPort != b.SMTPPort ||
			a.SmartHost != b.SmartHost || !bytes.Equal(a.CACert, b.CACert) || a.Resend != b.Resend {
			return vk.Badf("record:fields", "%+v became %+v", a, b)
		}
		if a.Message == nil && b.Message != nil {
			return vk.Badf("record:nil", "%+v became %+v, no longer without message", a, b)
		}
		if (a.Error == nil) != (b.Error == nil) || a.Error != nil && a.Error.Error() != b.Error.Error() {
			return vk.Badf("record:error", "error %v became %v", a.Error, b.Error)
		}
		for _, e := range errs[1:18] {
			if a.Error == e && b.Error != e {
				return vk.Badf("record:known", "the error %v is another one after decoding", e)
			}
		}
		return nil
	}
	r.Parallel(len(all), func(i int) {
		do(fmt.Sprintf("record %d", i), func() error {
			m := all[i].Marshal()
			if m == nil {
				return vk.Badf("record:marshal", "cannot encode %+v", all[i])
			}
			return same(all[i], m.Unmarshal())
		})
	})
	// damaged ones
	m := base().Marshal()
	for n := 0; n < len(m); n++ {
		do(fmt.Sprintf("record cut to %d", n), func() error {
			x := m[:n:n].Unmarshal()
			if x == nil || x.Error == nil || x.Resend {
				return vk.Badf("record:cut", "the first %d bytes give %+v", n, x)
			}
			if _, err := x.Deliver(); err == nil {
				return vk.Badf("record:deliver", "the first %d bytes could be delivered", n)
			}
			return nil
		})
		for v := 0; v < 256; v++ {
			if byte(v) == m[n] {
				continue
			}
			do(fmt.Sprintf("record with byte %d set to %d", n, v), func() error {
				x := append(client.MessageMarshalled(nil), m...)
				x[n] = byte(v)
				y := x.Unmarshal()
				if y == nil {
					return vk.Badf("record:nil", "no record")
				}
				return nil
			})
		}
	}
	do("record without certificate", func() error {
		m := base()
		m.CACert = nil
		if x := m.Marshal().Unmarshal(); x.CACert != nil {
			return vk.Badf("record:cacert", "the record of a message that does not enforce TLS (CACert nil) enforces it after decoding")
		}
		return nil
	})
	// what the record of a message is after it was sent
	do("sent record", func() error {
		x := (&client.MessageOutput{RevokeID: []byte("id")}).Marshal().Unmarshal()
		if _, err := x.Deliver(); err != client.ErrAlreadySent {
			return vk.Badf("record:resent", "delivering a message already sent: %v", err)
		}
		return nil
	})
	var none *client.MessageOutput
	do("no record", func() error {
		if _, err := none.Deliver(); err == nil {
			return vk.Badf("record:none", "delivered nothing")
		}
		return nil
	})
}

func main() {
	r = vk.Start("C24")
	integers()
	baseEncoding()
	count()
	paddings()
	ids()
	symmetric()
	mails()
	records()
	if r.Expired() {
		r.Cap("deadline")
	}
	r.Done()
}
