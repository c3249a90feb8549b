//go:build go1.23

package simrt

import "unsafe"

type selWait struct {
	cases []selEnt
	fired int // index of the case that a peer completed, -1 none
	val   any
	ok    bool
	hb    byte
}

type selEnt struct {
	ch   unsafe.Pointer
	send bool
	idx  int
	val  any
	unb  bool
}

//go:norace
func chanID[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// wakeChan wakes everything that waits on a channel so that it tries again.
//
//go:norace
func (w *World) wakeChan(id unsafe.Pointer) {
	for _, t := range w.tasks {
		if t.state == stBlocked && t.sel != nil {
			for i := range t.sel.cases {
				if t.sel.cases[i].ch == id {
					w.ready(t)
					break
				}
			}
		}
	}
}

// peer finds a parked task that waits for the opposite operation on an
// unbuffered channel. Among several, a seeded choice decides.
//
//go:norace
func (w *World) peer(id unsafe.Pointer, wantSend bool) (*Task, *selEnt) {
	n := 0
	for _, t := range w.tasks {
		if t.state == stBlocked && t.sel != nil && t.sel.fired < 0 {
			for i := range t.sel.cases {
				if t.sel.cases[i].ch == id && t.sel.cases[i].send == wantSend {
					n++
					break
				}
			}
		}
	}
	if n == 0 {
		return nil, nil
	}
	k := 0
	if n > 1 {
		k = Choose(n)
	}
	for _, t := range w.tasks {
		if t.state == stBlocked && t.sel != nil && t.sel.fired < 0 {
			for i := range t.sel.cases {
				if t.sel.cases[i].ch == id && t.sel.cases[i].send == wantSend {
					if k == 0 {
						return t, &t.sel.cases[i]
					}
					k--
					break
				}
			}
		}
	}
	return nil, nil
}

// meet performs the happens-before edges of a rendezvous with a parked task.
//
//go:norace
func (w *World) meet(t *Task, e *selEnt, val any) {
	s := t.sel
	RaceAcquire(unsafe.Pointer(&s.hb))
	if !e.send {
		s.val, s.ok = val, true
	}
	s.fired = e.idx
	RaceReleaseMerge(unsafe.Pointer(&s.hb))
	w.ready(t)
}

// park waits with the given cases; it returns the selWait.
//
//go:norace
func (w *World) parkSel(cases []selEnt, why string) *selWait {
	s := &selWait{cases: cases, fired: -1}
	t := w.cur
	t.sel = s
	RaceReleaseMerge(unsafe.Pointer(&s.hb))
	w.block(why, nil)
	t.sel = nil
	RaceAcquire(unsafe.Pointer(&s.hb))
	return s
}

// Sender returns the send operation of ch.
//
//go:norace
func Sender[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

//go:norace
func trySend[T any](ch chan<- T, v T) bool {
	select {
	case ch <- v:
		return true
	default:
		return false
	}
}

//go:norace
func send[T any](ch chan<- T, v T) {
	w := active
	if w == nil {
		ch <- v
		return
	}
	w.yield(-4, true)
	id := chanID(ch)
	unb := cap(ch) == 0
	for {
		if id != nil {
			if trySend(ch, v) { // also panics on a closed channel
				w.wakeChan(id)
				return
			}
			if unb {
				if t, e := w.peer(id, false); t != nil {
					w.meet(t, e, v)
					return
				}
			}
		}
		s := w.parkSel([]selEnt{{ch: id, send: true, val: v}}, "chan send")
		if s.fired >= 0 {
			return
		}
	}
}

//go:norace
func tryRecv[T any](ch <-chan T) (v T, ok, done bool) {
	select {
	case v, ok = <-ch:
		return v, ok, true
	default:
		return v, false, false
	}
}

// Recv is <-ch.
//
//go:norace
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 is v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	w := active
	if w == nil {
		v, ok := <-ch
		return v, ok
	}
	w.yield(-5, true)
	id := chanID(ch)
	for {
		if id != nil {
			if v, ok, done := tryRecv(ch); done {
				w.wakeChan(id)
				return v, ok
			}
			if cap(ch) == 0 {
				if t, e := w.peer(id, true); t != nil {
					v := asT[T](e.val)
					w.meet(t, e, nil)
					return v, true
				}
			}
		}
		s := w.parkSel([]selEnt{{ch: id}}, "chan receive")
		if s.fired >= 0 {
			return asT[T](s.val), s.ok
		}
	}
}

//go:norace
func asT[T any](v any) T {
	t, _ := v.(T)
	return t
}

// CloseOf returns the close operation of ch.
//
//go:norace
func CloseOf[T any](ch chan<- T) func() {
	return func() {
		w := active
		if w != nil {
			w.yield(-6, true)
		}
		close(ch)
		if w != nil {
			w.wakeChan(chanID(ch))
		}
	}
}

// SelCase is one case of a select.
type SelCase struct {
	ch   unsafe.Pointer
	send bool
	val  any
	try  func() (any, bool, bool)
	unb  bool
}

// Sel is the outcome of a select.
type Sel struct {
	I   int
	Ok  bool
	Val any
}

// SelVal returns the received value.
//
//go:norace
func SelVal[T any](s Sel) T { return asT[T](s.Val) }

// RecvCase is case <-ch.
//
//go:norace
func RecvCase[T any](ch <-chan T) SelCase {
	return SelCase{ch: chanID(ch), unb: cap(ch) == 0, try: func() (any, bool, bool) {
		v, ok, done := tryRecv(ch)
		return v, ok, done
	}}
}

// SendCase is case ch <- v.
//
//go:norace
func SendCase[T any](ch chan<- T) func(T) SelCase {
	return func(v T) SelCase {
		return SelCase{ch: chanID(ch), send: true, val: v, unb: cap(ch) == 0, try: func() (any, bool, bool) {
			return nil, false, trySend(ch, v)
		}}
	}
}

// Select performs a select statement; I is -1 for the default case.
//
//go:norace
func Select(hasDefault bool, cases ...SelCase) Sel {
	w := active
	if w != nil {
		w.yield(-7, true)
	}
	for {
		off := 0
		if len(cases) > 1 {
			off = Choose(len(cases))
		}
		for k := range cases {
			i := (k + off) % len(cases)
			c := cases[i]
			if c.ch == nil {
				continue
			}
			if v, ok, done := c.try(); done {
				if w != nil {
					w.wakeChan(c.ch)
				}
				return Sel{i, ok, v}
			}
			if w != nil && c.unb {
				if t, e := w.peer(c.ch, !c.send); t != nil {
					v := e.val
					w.meet(t, e, c.val)
					return Sel{i, true, v}
				}
			}
		}
		if hasDefault {
			return Sel{I: -1}
		}
		if w == nil {
			panic("simrt: blocking select outside a world")
		}
		ents := make([]selEnt, 0, len(cases))
		for i, c := range cases {
			if c.ch != nil {
				ents = append(ents, selEnt{ch: c.ch, send: c.send, idx: i, val: c.val})
			}
		}
		s := w.parkSel(ents, "select")
		if s.fired >= 0 {
			return Sel{s.fired, s.ok, s.val}
		}
	}
}
