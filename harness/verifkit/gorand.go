package verifkit

import (
	"bytes"
	"crypto/rand"
	"io"
	"runtime"
	"sync"
)

// GoRand is a random source that is chosen per goroutine, so that several
// explorations with reproducible randomness run side by side. Goroutines
// without a source of their own read from the system's.
var GoRand goRand

type goRand struct{ m sync.Map }

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	if len(f) < 2 {
		return ""
	}
	return string(f[1])
}

// Use makes src the random source of the calling goroutine.
func (g *goRand) Use(src io.Reader) { g.m.Store(goid(), src) }

// Read implements io.Reader.
func (g *goRand) Read(p []byte) (int, error) {
	if src, ok := g.m.Load(goid()); ok {
		return src.(io.Reader).Read(p)
	}
	return rand.Read(p)
}

// CtrRand is a copyable deterministic random source.
type CtrRand struct {
	Seed string
	N    uint64
}

// Read implements io.Reader. Every call is independent of the sizes of the
// calls before it.
func (c *CtrRand) Read(p []byte) (int, error) {
	c.N++
	h := h32(c.Seed, c.N, 0)
	k := copy(p, h[:])
	for i := uint64(1); k < len(p); i++ {
		h = h32(c.Seed, c.N, i)
		k += copy(p[k:], h[:])
	}
	return len(p), nil
}
