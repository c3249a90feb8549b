//go:build go1.23

// Package simpool stands in for the sync.Pool of the Japanese tokenizer's
// lattice nodes.
package simpool

import (
	"unsafe"

	"github.com/hangulize/hangulize/internal/verifsim/simrt"
)

// Steal is how often (of a million) Get returns another pooled item than the
// one that was put first, as sync.Pool does if a goroutine moves to another
// processor. With Steal < 0 nothing is pooled.
var Steal int64 = -1

var seed uint64

// pools are emptied by Reset.
var pools []*Pool

// Reset makes the program new.
func Reset(steal int64, s uint64) {
	Steal, seed = steal, s
	for _, p := range pools {
		p.items, p.first, p.known = nil, nil, false
	}
	pools = pools[:0]
}

type Pool struct {
	New   func() interface{}
	first interface{}
	items []interface{}
	known bool
	hb    byte
}

func rnd() uint64 {
	seed += 0x9E3779B97F4A7C15
	z := seed
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (p *Pool) Put(x interface{}) {
	if Steal < 0 {
		return
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&p.hb))
	if !p.known {
		p.known = true
		pools = append(pools, p)
	}
	if p.first == nil {
		p.first = x
		return
	}
	p.items = append(p.items, x)
}

func (p *Pool) Get() interface{} {
	if Steal >= 0 {
		simrt.RaceAcquire(unsafe.Pointer(&p.hb))
		if n := len(p.items); n > 0 && (p.first == nil || int64(rnd()%1_000_000) < Steal) {
			i := n - 1
			if p.first != nil {
				i = int(rnd() % uint64(n))
			}
			x := p.items[i]
			p.items[i] = p.items[n-1]
			p.items = p.items[:n-1]
			return x
		}
		if x := p.first; x != nil {
			p.first = nil
			return x
		}
	}
	return p.New()
}
