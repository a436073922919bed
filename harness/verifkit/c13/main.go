// C13: normalisation of identities, compared with a reference for all short
// names over a boundary alphabet, all runes and all lengths.
package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg/msgid"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/uid/identity"
	vk "github.com/mutecomm/mute/verifkit"
)

// refLocal is what the localpart of an identity is mapped to, and whether it
// is allowed.
func refLocal(lp string) (string, bool) {
	var rs []rune
	for _, c := range strings.TrimSpace(lp) {
		rs = append(rs, unicode.ToLower(c))
	}
	if len(rs) < 3 || len(rs) > 64 {
		return "", false
	}
	sep := true // at the start and after a separator none may follow
	out := make([]rune, len(rs))
	for i, c := range rs {
		switch {
		case c == '-' || c == '.':
			if sep {
				return "", false
			}
			sep = true
		case c >= 'a' && c <= 'z' || c >= '0' && c <= '9':
			sep = false
		default:
			return "", false
		}
		switch c {
		case '0':
			c = 'o'
		case '1':
			c = 'l'
		case 'j':
			c = 'i'
		}
		out[i] = c
	}
	if sep {
		return "", false
	}
	return string(out), true
}

func refDomain(d string) string {
	var b strings.Builder
	for _, c := range d {
		b.WriteRune(unicode.ToLower(c))
	}
	return b.String()
}

func refMap(id string) (string, string, bool) {
	if len(id) > 254 || strings.Count(id, "@") != 1 {
		return "", "", false
	}
	i := strings.Index(id, "@")
	lp, ok := refLocal(id[:i])
	d := refDomain(id[i+1:])
	if !ok || len(lp)+1+len(d) > 254 {
		return "", "", false
	}
	return lp + "@" + d, d, true
}

const allowed = "abcdefghiklmnopqrstuvwxyz23456789-."

// check compares everything there is about one identity.
func check(id string) error {
	want, wdom, ok := refMap(id)
	got, err := identity.Map(id)
	if (err == nil) != ok {
		return vk.Badf("map:accept", "Map(%q) = %q, %v; want accepted: %v", id, got, err, ok)
	}
	got2, dom, err2 := identity.MapPlus(id)
	if (err2 == nil) != ok || got2 != got || dom != wdom {
		return vk.Badf("mapplus", "MapPlus(%q) = %q, %q, %v, but Map = %q, %v", id, got2, dom, err2, got, err)
	}
	mapped := identity.IsMapped(id) == nil
	if mapped != (ok && want == id) {
		return vk.Badf("ismapped", "IsMapped(%q) = %v, want %v", id, mapped, ok && want == id)
	}
	lp, d, serr := identity.Split(id)
	if strings.Count(id, "@") == 1 {
		if serr != nil || lp+"@"+d != id {
			return vk.Badf("split", "Split(%q) = %q %q %v", id, lp, d, serr)
		}
		rl, rok := refLocal(lp)
		ml, lerr := identity.MapLocalpart(lp)
		if (lerr == nil) != rok || ml != rl {
			return vk.Badf("localpart", "MapLocalpart(%q) = %q, %v, want %q, %v", lp, ml, lerr, rl, rok)
		}
		if m := identity.MapDomain(d); m != refDomain(d) {
			return vk.Badf("domain", "MapDomain(%q) = %q", d, m)
		}
	} else if serr == nil {
		return vk.Badf("split:accept", "Split(%q) = %q %q", id, lp, d)
	}
	if !ok {
		if got != "" {
			return vk.Badf("map:rest", "Map(%q) = %q with an error", id, got)
		}
		return nil
	}
	if got != want {
		return vk.Badf("map:value", "Map(%q) = %q, want %q", id, got, want)
	}
	again, err := identity.Map(got)
	if err != nil || again != got {
		return vk.Badf("map:stable", "Map(%q) = %q, but Map(%q) = %q, %v", id, got, got, again, err)
	}
	if err := identity.IsMapped(got); err != nil {
		return vk.Badf("map:notmapped", "Map(%q) = %q, which IsMapped refuses", id, got)
	}
	l := got[:strings.Index(got, "@")]
	if strings.Trim(l, allowed) != "" && strings.IndexFunc(l, func(c rune) bool { return !strings.ContainsRune(allowed, c) }) >= 0 {
		return vk.Badf("map:chars", "Map(%q) = %q has characters that are not allowed", id, got)
	}
	return nil
}

func main() {
	r := vk.Start("C13")
	alpha := []string{"a", "j", "i", "0", "1", "o", "l", "9", "A", "J", "Z", "-", ".", " ", "@", "_", "\u00e9", "\x00", "\xff", "\u212a", "\t", "/", ":", "`", "{", "[", "I"}
	run := func(name, id string) {
		r.Case(fmt.Sprintf("%s: %q", name, id), func() error { return check(id) })
		r.Eval(name + id)
		if _, _, ok := refMap(id); ok {
			r.Outcome("accepted")
		} else {
			r.Outcome("refused")
		}
	}
	// all short names
	n := r.Pick(4, 5)
	done := r.Parallel(len(alpha)*len(alpha), func(i int) {
		first := alpha[i/len(alpha)] + alpha[i%len(alpha)]
		var rec func(s string, k int)
		rec = func(s string, k int) {
			run("name", s+"@mute.berlin")
			if k == 0 {
				return
			}
			for _, c := range alpha {
				rec(s+c, k-1)
			}
		}
		rec(first, n-2)
	})
	for _, c := range append(alpha, "") {
		run("name", c+"@mute.berlin")
	}
	// every rune, at every kind of position
	done = r.Parallel(0x1100, func(i int) {
		for c := rune(i * 256); c < rune(i*256+256); c++ {
			if !utf8.ValidRune(c) {
				continue
			}
			s := string(c)
			ids := []string{s + "bc@d.e", "ab" + s + "c@d.e", "abc" + s + "@d.e", "abc@d" + s + ".e"}
			if c > 0x3000 && !r.Thorough() && unicode.ToLower(c) == c && unicode.ToUpper(c) == c {
				ids = ids[1:2]
			}
			for _, id := range ids {
				run("rune", id)
			}
		}
	}) && done
	// every length
	for _, fill := range []string{"a", "J", "0", "a.", "-b", "\u00e9", "\u023a", "\u2c65", "\xff", " ", "\u0130"} {
		for l := 0; l <= 260; l++ {
			run("length", cut(fill, l)+"@mute.berlin")
			run("length", "abc@"+cut(fill, l))
			run("length", cut("ab", 64)+"@"+cut(fill, l))
			run("length", cut(fill, l/2)+"@"+cut(fill, l-l/2))
		}
	}
	// domains and shapes
	for _, id := range []string{"", "@", "@@", "abc", "abc@", "@abc", "abc@d@e", "abc @d", " abc@d", "abc@ d", "abc@d ", "ABC@MUTE.Berlin", "abc@M\u00dcTE.berlin",
		"a.b-c@d", "a.-b@d", "a-.b@d", "a--b@d", "a..b@d", "-abc@d", "abc-@d", ".abc@d", "abc.@d", "abc@.d", "abc@-d.", "abc@\u0130.d", "abc@\xff\xfe", "\u212aelvin@d"} {
		run("shape", id)
	}
	// those who need normalised names refuse all others
	var users []string
	for _, lp := range []string{"abc", "ab", "john", "iohn", "ABC", "a1b", "alb", "a.b", "a..b", "-ab", "abc ", " abc", "a_b", "abc@d", ""} {
		for _, d := range []string{"@mute.berlin", "@MUTE.berlin", "@", "", "@m@b"} {
			users = append(users, lp+d)
		}
	}
	done = r.Parallel(len(users), func(i int) {
		id := users[i]
		r.Case(fmt.Sprintf("use of %q", id), func() error {
			want, _, ok := refMap(id)
			mapped := ok && want == id
			src := vk.NewRand("c13" + id)
			_, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, src)
			if (err == nil) != mapped {
				return vk.Badf("use:uid", "uid.Create(%q): %v, normalised: %v", id, err, mapped)
			}
			_, err = msgid.Generate(id, src)
			if (err == nil) != mapped {
				return vk.Badf("use:msgid", "msgid.Generate(%q): %v, normalised: %v", id, err, mapped)
			}
			return nil
		})
		r.Eval("use " + id)
	}) && done
	if !done {
		r.Cap("deadline")
	}
	r.Done()
}

func cut(fill string, n int) string {
	s := strings.Repeat(fill, n/len(fill)+1)
	return s[:n]
}
