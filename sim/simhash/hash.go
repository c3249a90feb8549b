//go:build go1.23

// Package simhash replaces hash/maphash: its seeds are the simulated
// process's.
package simhash

import (
	"fmt"

	"github.com/hangulize/hangulize/internal/verifsim/simrt"
)

type Seed struct{ s uint64 }

func MakeSeed() Seed { return Seed{simrt.HashSeed() ^ simrt.Uint64() | 1} }

type Hash struct {
	seed Seed
	h    uint64
	set  bool
}

func (h *Hash) init() {
	if !h.set {
		if h.seed.s == 0 {
			h.seed = MakeSeed()
		}
		h.h, h.set = h.seed.s^14695981039346656037, true
	}
}

func (h *Hash) Write(b []byte) (int, error) {
	h.init()
	for _, c := range b {
		h.h = (h.h ^ uint64(c)) * 1099511628211
	}
	return len(b), nil
}
func (h *Hash) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *Hash) WriteByte(b byte) error            { h.Write([]byte{b}); return nil }
func (h *Hash) Seed() Seed                        { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed)                    { h.seed, h.set = s, false; h.init() }
func (h *Hash) Reset()                            { h.init(); h.set = false; h.init() }
func (h *Hash) Sum64() uint64                     { h.init(); return simrt.Mix(h.h, 1) }
func (h *Hash) Size() int                         { return 8 }
func (h *Hash) BlockSize() int                    { return 128 }
func (h *Hash) Sum(b []byte) []byte {
	x := h.Sum64()
	return append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24), byte(x>>32), byte(x>>40), byte(x>>48), byte(x>>56))
}

func Bytes(s Seed, b []byte) uint64  { h := Hash{seed: s}; h.Write(b); return h.Sum64() }
func String(s Seed, v string) uint64 { return Bytes(s, []byte(v)) }

func Comparable[T comparable](s Seed, v T) uint64 { return String(s, fmt.Sprintf("%T%#v", v, v)) }
func WriteComparable[T comparable](h *Hash, v T)  { h.WriteString(fmt.Sprintf("%T%#v", v, v)) }
