// C17: mail through composition, chunks in any order and parsing, and damaged
// mail.
package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/mutecomm/mute/ctrlengine/mail"
	"github.com/mutecomm/mute/msg/mime"
	vk "github.com/mutecomm/mute/verifkit"
)

var r *vk.R

func do(desc string, f func() error) {
	r.Case(desc, f)
	r.Eval(desc)
}

type att struct {
	name, ct string
	inline   bool
	data     string
}

type letter struct {
	h    mime.Header
	msg  string
	atts []att
}

func (l *letter) String() string {
	s := fmt.Sprintf("%q", l.h)
	m := l.msg
	if len(m) > 60 {
		m = fmt.Sprintf("%s... (%d)", m[:60], len(m))
	}
	s += fmt.Sprintf(" %q", m)
	for _, a := range l.atts {
		d := a.data
		if len(d) > 20 {
			d = fmt.Sprintf("%s... (%d)", d[:20], len(d))
		}
		s += fmt.Sprintf(" [%q %q %v %q]", a.name, a.ct, a.inline, d)
	}
	return s
}

func (l *letter) compose() (string, error) {
	var as []*mime.Attachment
	for _, a := range l.atts {
		as = append(as, &mime.Attachment{Filename: a.name, Reader: bytes.NewBufferString(a.data), ContentType: a.ct, Inline: a.inline})
	}
	var b bytes.Buffer
	err := mime.New(&b, l.h, l.msg, as)
	return b.String(), err
}

// subject is the first line without what ends it.
func (l *letter) subject() string {
	s := l.msg
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	for strings.HasSuffix(s, "\r") {
		s = s[:len(s)-1]
	}
	return s
}

func sameHeader(a, b *mime.Header) bool {
	return b != nil && a.From == b.From && a.To == b.To && a.MessageID == b.MessageID && a.InReplyTo == b.InReplyTo &&
		len(a.Cc) == len(b.Cc) && (len(a.Cc) == 0 || reflect.DeepEqual(a.Cc, b.Cc))
}

// parse compares what text parses to with the letter.
func (l *letter) parse(text string) error {
	h, subject, message, atts, err := mime.Parse(strings.NewReader(text))
	if err != nil {
		return vk.Badf("parse", "%v: %v", l, err)
	}
	if !sameHeader(&l.h, h) {
		return vk.Badf("header", "%q became %q", l.h, h)
	}
	if subject != l.subject() {
		return vk.Badf("subject", "%q became %q", l.subject(), subject)
	}
	if message != l.msg {
		return vk.Badf("message", "%q became %q", l.msg, message)
	}
	if len(atts) != len(l.atts) {
		return vk.Badf("attachments", "%d became %d", len(l.atts), len(atts))
	}
	for i, a := range l.atts {
		b := atts[i]
		d, err := ioutil.ReadAll(b.Reader)
		if err != nil || string(d) != a.data {
			return vk.Badf("attachment:data", "%q: %d bytes became %d, %v", a.name, len(a.data), len(d), err)
		}
		if b.Filename != filepath.Base(a.name) {
			return vk.Badf("attachment:name", "%q became %q", a.name, b.Filename)
		}
		if b.Inline != a.inline {
			return vk.Badf("attachment:inline", "%q: %v became %v", a.name, a.inline, b.Inline)
		}
		if a.ct != "" && b.ContentType != a.ct || b.ContentType == "" {
			return vk.Badf("attachment:type", "%q: %q became %q", a.name, a.ct, b.ContentType)
		}
	}
	return nil
}

func (l *letter) check() error {
	text, err := l.compose()
	if err != nil {
		return vk.Badf("compose", "%v: %v", l, err)
	}
	s, m := mime.SplitMessage(l.msg)
	rest := ""
	if i := strings.IndexByte(l.msg, '\n'); i >= 0 {
		rest = l.msg[i+1:]
	}
	if s != l.subject() || m != rest {
		return vk.Badf("split", "%q splits into %q and %q", l.msg, s, m)
	}
	return l.parse(text)
}

var head = mime.Header{From: "alice@mute.berlin", To: "bob@mute.berlin", MessageID: "2018-01-0123456789abcdef0123456789abcdef-alice@mute.berlin"}

func bodies() {
	alpha := []string{"a", " ", "\n", "\r", "\u00e9", "\t", "=?utf-8?q?x?=", "=", "?", "\x00", "\xff", "\"", "_", ":"}
	n := r.Pick(5, 6)
	k := len(alpha)
	run := func(s string) {
		do(fmt.Sprintf("message %q", s), func() error { return (&letter{h: head, msg: s}).check() })
	}
	run("")
	for _, c := range alpha {
		run(c)
	}
	r.Parallel(k*k, func(i int) {
		var rec func(s string, d int)
		rec = func(s string, d int) {
			run(s)
			if d > 0 {
				for _, c := range alpha {
					rec(s+c, d-1)
				}
			}
		}
		rec(alpha[i/k]+alpha[i%k], n-2)
	})
	var long []string
	for l := 0; l < r.Pick(400, 2000); l++ {
		for _, f := range []string{"s", "\u00e9", "ab ", "\u4e16x", " ", "=?"} {
			long = append(long, strings.Repeat(f, l), strings.Repeat(f, l)+"\nbody", "s\n"+strings.Repeat(f, l))
		}
	}
	for _, l := range []int{4000, 4096, 65536, 70000, 1 << 20} {
		long = append(long, strings.Repeat("x", l)+"\nbody", "s\n"+strings.Repeat("y\n", l))
	}
	r.Parallel(len(long), func(i int) { run(long[i]) })
}

func attachments() {
	names := []string{"a.txt", "two words.pdf", "semi;colon.txt", "quo\"te.txt", "back\\slash.txt", "\u00e9\u4e16.txt", "eq=ual", "per%20cent%", "a,b", "(x)", "noext", ".hidden", "x.", "a'b*c", "dir/file.txt", "/abs/f.html", "tab\there", "nl\nx: y", "@", strings.Repeat("long", 60) + ".txt", "inline", "attachment", "=?utf-8?q?x?="}
	cts := []string{"", "application/pdf", "text/plain; charset=utf-8", "application/octet-stream"}
	datas := []string{"", "x", "\x00\xff", "--", "\r\n", strings.Repeat("data\r\n", 3000)}
	var all []*letter
	for _, n := range names {
		for _, c := range cts {
			for _, in := range []bool{false, true} {
				for _, d := range datas {
					all = append(all, &letter{head, "subject\nbody", []att{{n, c, in, d}}})
				}
			}
		}
	}
	for i := range names {
		for j := range names {
			all = append(all, &letter{head, "s", []att{{names[i], cts[i%4], i%2 == 0, datas[j%6]}, {names[j], cts[j%4], j%2 == 0, datas[i%6]}, {names[i], "", false, "z"}}})
		}
	}
	for l := 0; l < 200; l++ {
		all = append(all, &letter{head, "s\nb", []att{{"f", "", false, strings.Repeat("\x01", l)}, {"f", "", true, strings.Repeat("z", l*70)}}})
	}
	r.Parallel(len(all), func(i int) {
		do("letter "+all[i].String(), all[i].check)
	})
}

func headers() []mime.Header {
	var hs []mime.Header
	ids := []string{head.MessageID, "2018-01-0123456789abcdef0123456789abcdef-a-b.c@m\u00fcnchen.de", "x"}
	for _, f := range []string{"alice@mute.berlin", "a.b-c@" + strings.Repeat("d", 200), "abc@m\u00fcnchen.de"} {
		for _, cc := range [][]string{nil, {}, {"carol@mute.berlin"}, {"carol@mute.berlin", "d.e-f@x.y", "g99@h"}, {"Dave@Mute.Berlin", "dave@mute.berlin"}} {
			for _, id := range ids {
				for _, re := range []string{"", "y", ids[1]} {
					hs = append(hs, mime.Header{From: f, To: "b" + f, Cc: cc, MessageID: id, InReplyTo: re})
				}
			}
		}
	}
	return hs
}

func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// chunks splits text, lets the chunks arrive in every order (a few for many
// chunks) and puts them together again by what they say about themselves.
func chunks(h mime.Header, text string, size uint64, orders int) error {
	cs, err := mime.EncodeChunks(h, text, size)
	if err != nil {
		return vk.Badf("chunks:encode", "%v", err)
	}
	want := (uint64(len(text)) + size - 1) / size
	if uint64(len(cs)) != want {
		return vk.Badf("chunks:count", "%d bytes in chunks of %d: %d chunks", len(text), size, len(cs))
	}
	type dec struct {
		part         string
		piece, count uint64
	}
	var ds []dec
	for i, c := range cs {
		hd, part, piece, count, err := mime.DecodeChunk(c)
		if err != nil {
			return vk.Badf("chunks:decode", "chunk %d of %q: %v", i, h, err)
		}
		if !sameHeader(&h, hd) {
			return vk.Badf("chunks:header", "%q became %q", h, hd)
		}
		if uint64(len(part)) > size {
			return vk.Badf("chunks:size", "a chunk of %d bytes, at most %d asked", len(part), size)
		}
		ds = append(ds, dec{part, piece, count})
	}
	join := func(order []int) error {
		got := map[uint64]string{}
		for k, i := range order {
			d := ds[i]
			if d.piece < 1 || d.piece > d.count || d.count != want {
				return vk.Badf("chunks:piece", "piece %d of %d, want %d", d.piece, d.count, want)
			}
			if _, ok := got[d.piece]; ok {
				return vk.Badf("chunks:twice", "two pieces %d", d.piece)
			}
			got[d.piece] = d.part
			if (len(got) == int(d.count)) != (k == len(order)-1) {
				return vk.Badf("chunks:complete", "complete after %d of %d", k+1, len(order))
			}
		}
		s := ""
		for i := uint64(1); i <= want; i++ {
			s += got[i]
		}
		if s != text {
			return vk.Badf("chunks:join", "%q in chunks of %d became %q", text, size, s)
		}
		return nil
	}
	var fail error
	if len(ds) <= orders {
		perms(len(ds), func(p []int) {
			r.Trace()
			if err := join(p); err != nil && fail == nil {
				fail = err
			}
		})
		return fail
	}
	fwd, back := make([]int, len(ds)), make([]int, len(ds))
	for i := range ds {
		fwd[i], back[i] = i, len(ds)-1-i
	}
	if err := join(fwd); err != nil {
		return err
	}
	return join(back)
}

func chunking() {
	alpha := []string{"a", "\r", "\n", "--", "\xff", "=", " ", "\x00"}
	var texts []string
	vk.Sequences(len(alpha), r.Pick(4, 6), func(seq []int) {
		s := ""
		for _, k := range seq {
			s += alpha[k]
		}
		texts = append(texts, s)
	})
	r.Parallel(len(texts), func(i int) {
		for size := uint64(1); size <= uint64(len(texts[i]))+1; size++ {
			if size > 4 && size < uint64(len(texts[i])) {
				continue
			}
			do(fmt.Sprintf("chunks of %q by %d", texts[i], size), func() error { return chunks(head, texts[i], size, 4) })
		}
	})
	hs := headers()
	r.Parallel(len(hs), func(i int) {
		l := &letter{hs[i], "A subject\nand a body \u00e9\r\n--\r\n", []att{{"f f.txt", "", true, strings.Repeat("\r\n--x", 40)}}}
		text, err := l.compose()
		do(fmt.Sprintf("letter with header %q", hs[i]), func() error {
			if err != nil {
				return err
			}
			return l.parse(text)
		})
		for size := uint64(1); size <= uint64(len(text))+2; size += 1 + size/3 {
			if len(text)/int(size) > 300 {
				continue
			}
			do(fmt.Sprintf("chunks of %d with header %q", size, hs[i]), func() error { return chunks(hs[i], text, size, 5) })
		}
	})
	// text from other mails' boundaries
	l := &letter{head, "s\nb", nil}
	text, _ := l.compose()
	cs, _ := mime.EncodeChunks(head, text, uint64(len(text)))
	do("chunks of a chunk", func() error { return chunks(head, cs[0], 64, 5) })
	do("chunks of nothing", func() error {
		cs, err := mime.EncodeChunks(head, "", 10)
		if err != nil || len(cs) != 0 {
			return vk.Badf("chunks:empty", "%d chunks, %v", len(cs), err)
		}
		return nil
	})
}

// damaged cuts and alters mail; nothing crashes, and no cut mail passes for
// the whole.
func damaged() {
	l := &letter{mime.Header{From: head.From, To: head.To, Cc: []string{"carol@mute.berlin"}, MessageID: head.MessageID, InReplyTo: "x"}, "The subject\nThe body",
		[]att{{"one two.txt", "text/plain", true, "content one"}, {"b.bin", "", false, "content two"}}}
	text, err := l.compose()
	if err != nil {
		r.Case("compose", func() error { return err })
		return
	}
	cs, err := mime.EncodeChunks(l.h, text, 300)
	if err != nil {
		r.Case("chunks", func() error { return err })
		return
	}
	for n := 0; n < len(text); n++ {
		do(fmt.Sprintf("mail cut to %d of %d", n, len(text)), func() error {
			h, _, _, _, err := mime.Parse(strings.NewReader(text[:n]))
			if err == nil {
				// only the end of the last line may be missing
				if len(text)-n > 2 || l.parse(text[:n]) != nil {
					return vk.Badf("cut:accepted", "%d of %d bytes of a mail are accepted", n, len(text))
				}
			} else if h != nil {
				return vk.Badf("cut:result", "a header with the error %v", err)
			}
			return nil
		})
	}
	c := cs[0]
	_, part, _, _, _ := mime.DecodeChunk(c)
	for n := 0; n < len(c); n++ {
		do(fmt.Sprintf("chunk cut to %d of %d", n, len(c)), func() error {
			h, p, _, _, err := mime.DecodeChunk(c[:n])
			if err == nil && (h == nil || p != part) {
				return vk.Badf("cut:chunk", "%d of %d bytes of a chunk are accepted as %q", n, len(c), p)
			}
			return nil
		})
	}
	vals := []byte{0, '\n', '\r', ' ', '"', '=', ';', '-', ':', 'x', 0x80, '?'}
	if r.Thorough() {
		vals = nil
		for v := 0; v < 256; v++ {
			vals = append(vals, byte(v))
		}
	}
	alter := func(what, s string, f func(s string) error) {
		r.Parallel(len(s), func(i int) {
			for _, v := range vals {
				x := []byte(s)
				x[i] = v
				do(fmt.Sprintf("%s with byte %d set to %#x", what, i, v), func() error { return f(string(x)) })
			}
			do(fmt.Sprintf("%s without byte %d", what, i), func() error { return f(s[:i] + s[i+1:]) })
			do(fmt.Sprintf("%s with byte %d twice", what, i), func() error { return f(s[:i] + s[i:i+1] + s[i:]) })
		})
		lines := strings.SplitAfter(s, "\n")
		for i := range lines {
			for j := range lines {
				ls := append([]string(nil), lines...)
				ls[i] = lines[j]
				do(fmt.Sprintf("%s with line %d for %d", what, j, i), func() error { return f(strings.Join(ls, "")) })
			}
			ls := append(append([]string(nil), lines[:i]...), lines[i+1:]...)
			do(fmt.Sprintf("%s without line %d", what, i), func() error { return f(strings.Join(ls, "")) })
		}
	}
	alter("mail", text, func(s string) error {
		h, _, _, as, err := mime.Parse(strings.NewReader(s))
		if err == nil && (h == nil || h.From == "" || h.To == "" || h.MessageID == "") {
			return vk.Badf("altered:header", "mail without sender, recipient or ID accepted: %q", h)
		}
		for _, a := range as {
			if err == nil && (a == nil || a.Reader == nil) {
				return vk.Badf("altered:attachment", "%v", a)
			}
		}
		return nil
	})
	alter("chunk", c, func(s string) error {
		h, _, _, _, err := mime.DecodeChunk(s)
		if err == nil && h == nil {
			return vk.Badf("altered:chunk", "no header and no error")
		}
		return nil
	})
	// each required header left out, and wrong ones
	for _, n := range []string{"From: ", "To: ", "Message-ID: ", "MIME-Version: ", "Content-Type: multipart"} {
		i := strings.Index(text, n)
		j := i + strings.IndexByte(text[i:], '\n') + 1
		for _, s := range []string{text[:i] + text[j:], text[:i] + n[:strings.Index(n, ":")] + ": \r\n" + text[j:]} {
			do(fmt.Sprintf("mail without %q: %q", n, s[i:i+10]), func() error {
				if _, _, _, _, err := mime.Parse(strings.NewReader(s)); err == nil {
					return vk.Badf("missing", "a mail without %q is accepted", n)
				}
				return nil
			})
		}
	}
	for _, x := range [][2]string{{"multipart/mixed", "multipart/other"}, {"MIME-Version: 1.0", "MIME-Version: 2.0"}, {"text/plain\r\n", "text/html\r\n"},
		{"Content-Transfer-Encoding: base64", "Content-Transfer-Encoding: binary"}} {
		do(fmt.Sprint("mail with ", x[1]), func() error {
			s := strings.Replace(text, x[0], x[1], 1)
			if _, _, _, _, err := mime.Parse(strings.NewReader(s)); err == nil {
				return vk.Badf("wrong", "a mail with %q is accepted", x[1])
			}
			return nil
		})
	}
	for _, x := range [][2]string{{"piece=", "piece=x"}, {"count=", "count=-"}, {"count=", "kount="}, {"chunkid=\"", "chunkid=\"x"}, {"multipart/mixed", "text/plain"}, {"piece=1", "piece=99999999999999999999"}} {
		do(fmt.Sprint("chunk with ", x[1]), func() error {
			s := strings.Replace(c, x[0], x[1], 1)
			if s == c {
				return fmt.Errorf("%q not found", x[0])
			}
			if _, _, _, _, err := mime.DecodeChunk(s); err == nil {
				return vk.Badf("wrong:chunk", "a chunk with %q is accepted", x[1])
			}
			return nil
		})
	}
}

// drafts are mails written by the user's mail program.
func drafts() {
	for _, to := range []string{"bob@mute.berlin", "Bob <bob@mute.berlin>", ""} {
		for _, subj := range []string{"", "hello", "a: b"} {
			for _, body := range []string{"", "text", "line\r\nline\r\n", "\n\nx", "\xff\x00", strings.Repeat("z", 70000)} {
				for _, nl := range []string{"\r\n", "\n"} {
					s := "From: me" + nl
					if to != "" {
						s += "To: " + to + nl
					}
					if subj != "" {
						s += "Subject: " + subj + nl
					}
					s += nl + body
					do(fmt.Sprintf("draft %q", s[:len(s)-len(body)]+fmt.Sprint(len(body))), func() error {
						rc, m, err := mail.Parse(strings.NewReader(s))
						if (err == nil) != (to != "") {
							return vk.Badf("draft:to", "draft to %q: %v", to, err)
						}
						if err == nil && (rc != to || m != subj+"\n"+body) {
							return vk.Badf("draft", "draft %q became %q to %q", s, m, rc)
						}
						return nil
					})
				}
			}
		}
	}
	vk.Sequences(6, 5, func(seq []int) {
		s := ""
		for _, k := range seq {
			s += []string{"To: x", ":", "\r\n", "\n", " ", "\x00"}[k]
		}
		do(fmt.Sprintf("draft %q", s), func() error { mail.Parse(strings.NewReader(s)); return nil })
	})
}

func main() {
	r = vk.Start("C17")
	bodies()
	attachments()
	chunking()
	damaged()
	drafts()
	if r.Expired() {
		r.Cap("deadline")
	}
	r.Done()
}
