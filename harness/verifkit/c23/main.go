// C23: the text buffer compared with a reference layout, and the editor's
// cursor and display explored over all key sequences.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/gdamore/tcell"
	"github.com/mattn/go-runewidth"
	"github.com/mutecomm/mute/tui/editor"
	"github.com/mutecomm/mute/tui/textbuffer"
	vk "github.com/mutecomm/mute/verifkit"
)

var r *vk.R

type refCell struct {
	char  []rune
	width int
}

type refLine struct {
	runes []rune
	chars [][]rune
	cells []refCell
}

// layout is the reference: characters with what combines with them, and the
// cells they occupy.
func layout(text string) []refLine {
	var ls []refLine
	for _, row := range strings.Split(text, "\n") {
		var l refLine
		var widths []int
		for _, c := range row {
			w := runewidth.RuneWidth(c)
			if w == 0 && len(l.chars) == 0 { // gets a space to combine with
				l.runes = append(l.runes, ' ')
				l.chars = append(l.chars, []rune{' '})
				widths = append(widths, 1)
			}
			l.runes = append(l.runes, c)
			if w == 0 {
				n := len(l.chars) - 1
				l.chars[n] = append(l.chars[n], c)
			} else {
				l.chars = append(l.chars, []rune{c})
				widths = append(widths, w)
			}
		}
		for i, c := range l.chars {
			l.cells = append(l.cells, refCell{c, widths[i]})
			if widths[i] == 2 {
				l.cells = append(l.cells, refCell{c, 0})
			}
		}
		ls = append(ls, l)
	}
	return ls
}

type failing struct {
	bytes.Buffer
	n int
}

func (f *failing) Write(p []byte) (int, error) {
	if f.Len()+len(p) > f.n {
		return 0, errors.New("full")
	}
	return f.Buffer.Write(p)
}

// WriteString keeps io.WriteString from going past Write.
func (f *failing) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func check(text string) error {
	in := []byte(text)
	tb := textbuffer.New(in)
	if string(in) != text {
		return vk.Badf("input", "New changed its input %q", text)
	}
	for i := range in { // the buffer is the text's own
		in[i] = 'X'
	}
	ls := layout(text)
	if tb.Lines() != len(ls) {
		return vk.Badf("lines", "%q has %d lines, want %d", text, tb.Lines(), len(ls))
	}
	max := 0
	var out []string
	for y := -2; y < len(ls)+2; y++ {
		var l refLine
		if y >= 0 && y < len(ls) {
			l = ls[y]
			out = append(out, string(l.runes))
		}
		if len(l.cells) > max {
			max = len(l.cells)
		}
		if a, b, c := tb.LineLenRune(y), tb.LineLenChar(y), tb.LineLenCell(y); a != len(l.runes) || b != len(l.chars) || c != len(l.cells) {
			return vk.Badf("length", "line %d of %q has %d runes, %d characters, %d cells; want %d, %d, %d", y, text, a, b, c, len(l.runes), len(l.chars), len(l.cells))
		}
		for x := -2; x < len(l.runes)+len(l.cells)+2; x++ {
			want := utf8.RuneError
			if x >= 0 && x < len(l.runes) {
				want = l.runes[x]
			}
			if c := tb.GetRune(x, y); c != want {
				return vk.Badf("rune", "rune %d,%d of %q is %q, want %q", x, y, text, c, want)
			}
			var wc []rune
			if x >= 0 && x < len(l.chars) {
				wc = l.chars[x]
			}
			if c := tb.GetChar(x, y); string(c) != string(wc) || wc == nil && c != nil {
				return vk.Badf("char", "character %d,%d of %q is %q, want %q", x, y, text, string(c), string(wc))
			}
			var we refCell
			if x >= 0 && x < len(l.cells) {
				we = l.cells[x]
			}
			if c, w := tb.GetCell(x, y); string(c) != string(we.char) || w != we.width || we.char == nil && c != nil {
				return vk.Badf("cell", "cell %d,%d of %q is %q of width %d, want %q of width %d", x, y, text, string(c), w, string(we.char), we.width)
			}
		}
	}
	if m := tb.MaxLineLenCell(); m != max {
		return vk.Badf("max", "%q is %d cells wide, want %d", text, m, max)
	}
	var b bytes.Buffer
	err := tb.Write(&b)
	want := strings.Join(out, "\n")
	if err != nil || b.String() != want {
		return vk.Badf("write", "%q writes back %q, %v, want %q", text, b.String(), err, want)
	}
	if len(want) < 12 {
		for n := 0; n < len(want); n++ {
			f := &failing{n: n}
			if err := tb.Write(f); err == nil || !strings.HasPrefix(want, f.String()) {
				return vk.Badf("write:failed", "%q into a writer that takes %d bytes: %v, %q written", text, n, err, f.String())
			}
		}
	}
	return nil
}

// screen is a view that keeps what is drawn.
type screen struct {
	w, h int
	c    map[[2]int]string
	rev  map[[2]int]bool
}

func (s *screen) SetContent(x, y int, ch rune, comb []rune, st tcell.Style) {
	if x >= 0 && y >= 0 && x < s.w && y < s.h {
		s.c[[2]int{x, y}] = string(append([]rune{ch}, comb...))
		_, _, a := st.Decompose()
		s.rev[[2]int{x, y}] = a&tcell.AttrReverse != 0
	}
}
func (s *screen) Size() (int, int)             { return s.w, s.h }
func (s *screen) Resize(x, y, w, h int)        {}
func (s *screen) Fill(ch rune, st tcell.Style) {}
func (s *screen) Clear()                       {}

// shows tells whether the screen shows the window of the text at ox, oy.
func (s *screen) shows(ls []refLine, ox, oy int) bool {
	for y := 0; y < s.h; y++ {
		for x := 0; x < s.w; x++ {
			want := " "
			if y+oy < len(ls) && x+ox < len(ls[y+oy].cells) {
				c := ls[y+oy].cells[x+ox]
				if c.width == 0 {
					continue // the other half of a wide character
				}
				want = string(c.char)
				if c.char[0] == 0 {
					continue
				}
			}
			if s.c[[2]int{x, y}] != want {
				return false
			}
		}
	}
	return true
}

var keys = []*tcell.EventKey{}
var names []string

func key(name string, k tcell.Key, c rune) {
	keys = append(keys, tcell.NewEventKey(k, c, 0))
	names = append(names, name)
}

type ed struct {
	e      *editor.Editor
	s      *screen
	x, y   int
	cursor bool
}

func start(text string, w, h int, cursor bool) *ed {
	e := &ed{e: editor.New(), s: &screen{w: w, h: h}, cursor: cursor}
	e.e.EnableCursor(cursor)
	e.e.SetContent([]byte(text))
	e.e.SetView(e.s)
	return e
}

func (e *ed) check(text string, ls []refLine) error {
	e.s.c, e.s.rev = map[[2]int]string{}, map[[2]int]bool{}
	e.e.Draw()
	x, y := e.e.GetCursor()
	if e.cursor && (x != e.x || y != e.y) {
		return vk.Badf("cursor", "the cursor is at %d,%d, want %d,%d", x, y, e.x, e.y)
	}
	w := 0
	for _, l := range ls {
		if len(l.cells) > w {
			w = len(l.cells)
		}
	}
	for oy := 0; oy <= len(ls); oy++ {
		for ox := 0; ox <= w; ox++ {
			if !e.s.shows(ls, ox, oy) {
				continue
			}
			if !e.cursor {
				return nil
			}
			if x >= ox && x < ox+e.s.w && y >= oy && y < oy+e.s.h {
				return nil
			}
		}
	}
	return vk.Badf("screen", "the %dx%d screen shows %q, which is no window of the text %q with the cursor %d,%d", e.s.w, e.s.h, fmt.Sprint(e.s.c), text, x, y)
}

func limit(v, n int) int {
	if v > n-1 {
		v = n - 1
	}
	if v < 0 {
		v = 0
	}
	return v
}

func editing() {
	key("up", tcell.KeyUp, 0)
	key("down", tcell.KeyDown, 0)
	key("left", tcell.KeyLeft, 0)
	key("right", tcell.KeyRight, 0)
	key("page up", tcell.KeyPgUp, 0)
	key("page down", tcell.KeyPgDn, 0)
	key("home", tcell.KeyHome, 0)
	key("end", tcell.KeyEnd, 0)
	texts := []string{"", "a", "\n", "abc\n\nd", "a\nbcdef\n\u4e16\u754c\nx\u0301y\nlast", strings.Repeat("0123456789abc\n", 6)}
	sizes := [][2]int{{1, 1}, {2, 2}, {3, 2}, {8, 3}, {20, 10}}
	resizes := [][2]int{{2, 1}, {5, 3}}
	depth := r.Pick(4, 6)
	type cs struct {
		text   string
		w, h   int
		cursor bool
	}
	var all []cs
	for _, t := range texts {
		for _, s := range sizes {
			all = append(all, cs{t, s[0], s[1], true}, cs{t, s[0], s[1], false})
		}
	}
	r.Parallel(len(all), func(i int) {
		c := all[i]
		ls := layout(c.text)
		w := 0
		for _, l := range ls {
			if len(l.cells) > w {
				w = len(l.cells)
			}
		}
		n := len(keys) + len(resizes)
		total := 1
		for k := 0; k < depth; k++ {
			total *= n
		}
		for k := 0; k < total; k++ {
			seq := make([]int, depth)
			name := ""
			for d, v := 0, k; d < depth; d, v = d+1, v/n {
				seq[d] = v % n
				if v%n < len(keys) {
					name += names[v%n] + ","
				} else {
					name += fmt.Sprint("screen of ", resizes[v%n-len(keys)], ",")
				}
			}
			r.Case(fmt.Sprintf("%q on %dx%d, cursor %v: %s", c.text, c.w, c.h, c.cursor, name), func() error {
				e := start(c.text, c.w, c.h, c.cursor)
				for _, k := range seq {
					if k >= len(keys) {
						// the terminal's window changes its size
						e.s.w, e.s.h = resizes[k-len(keys)][0], resizes[k-len(keys)][1]
						e.e.Resize()
						r.Trans()
						continue
					}
					if !e.e.HandleEvent(keys[k]) {
						return vk.Badf("key", "key %s was not handled", names[k])
					}
					r.Trans()
					x, y := e.x, e.y
					switch names[k] {
					case "up":
						y--
					case "down":
						y++
					case "left":
						x--
					case "right":
						x++
					case "page up":
						y -= e.s.h
					case "page down":
						y += e.s.h
					case "home":
						x, y = 0, 0
					case "end":
						x, y = w, len(ls)
					}
					e.x, e.y = limit(x, w), limit(y, len(ls))
				}
				r.State(fmt.Sprint(i, e.x, e.y, name[:0]))
				return e.check(c.text, ls)
			})
			r.Trace()
			r.Eval(fmt.Sprint("edit", i, k))
		}
	})
}

func main() {
	r = vk.Start("C23")
	alpha := []string{"a", " ", "\u00e9", "\u4e16", "\u0301", "\t", "\n", "\r", "\U0001f600", "\u200b", "\x00", "\x1b", "\xff", "\xe4\xb8", "\ufffd"}
	n := r.Pick(5, 6)
	k := len(alpha)
	run := func(s string) {
		r.Case(fmt.Sprintf("text %q", s), func() error { return check(s) })
		r.Eval(s)
	}
	run("")
	for _, a := range alpha {
		run(a)
	}
	done := r.Parallel(k*k, func(i int) {
		var rec func(s string, d int)
		rec = func(s string, d int) {
			run(s)
			if d == 0 {
				return
			}
			for _, c := range alpha {
				rec(s+c, d-1)
			}
		}
		rec(alpha[i/k]+alpha[i%k], n-2)
	})
	done = r.Parallel(0x1100, func(i int) {
		for c := rune(i * 256); c < rune(i*256+256); c++ {
			run("x" + string(c) + "y")
			if r.Thorough() || c < 0x3100 {
				run(string(c) + "\n" + string(c))
			}
		}
	}) && done
	for l := 0; l < 300; l++ {
		for _, f := range []string{"a", "\u4e16", "a\u0301", "\n", "a\n", "\n\n\u4e16x"} {
			run(strings.Repeat(f, l))
			run("x\n" + strings.Repeat(f, l) + "\ny")
		}
	}
	editing()
	if !done || r.Expired() {
		r.Cap("deadline")
	}
	r.Done()
}
