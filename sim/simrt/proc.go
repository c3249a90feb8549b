//go:build go1.23

package simrt

import (
	"encoding/binary"
	"errors"
	"io"
	"math/big"
	"time"
)

// Proc is what distinguishes one process from another besides its input: the
// machine it runs on, the moment it started and its random numbers.
type Proc struct {
	CPUs int    `json:"cpus,omitempty"`
	Pid  int    `json:"pid,omitempty"`
	Host string `json:"host,omitempty"`
	Env  string `json:"env,omitempty"` // every variable has this value; empty: none is set
	Sec  int64  `json:"sec,omitempty"` // start, in seconds after the epoch
	Rand uint64 `json:"rand,omitempty"`
}

var stdProc = Proc{CPUs: 4, Pid: 4242, Host: "sim"}

// proc is the identity of the current process: set by Start for its
// initialisation and by Run for a run.
var proc = stdProc
var idSeq uint64

// Start gives the process that is about to be initialised its identity.
//
//go:norace
func Start(p *Proc) {
	proc = stdProc
	if p != nil {
		proc = *p
		if proc.CPUs < 1 {
			proc.CPUs = 1
		}
	}
	idSeq = 0
}

//go:norace
func NumCPU() int { return proc.CPUs }

//go:norace
func GOMAXPROCS(n int) int {
	old := proc.CPUs
	if n > 0 {
		proc.CPUs = n
	}
	return old
}

// NumGoroutine counts the tasks that have not ended.
//
//go:norace
func NumGoroutine() int {
	if active == nil {
		return 1
	}
	n := 0
	for _, t := range active.tasks {
		if t.state != stDone {
			n++
		}
	}
	return n
}

//go:norace
func Gosched() {
	if active != nil {
		active.yield(-3, true)
	}
}

//go:norace
func GC() {}

//go:norace
func Getpid() int { return proc.Pid }

//go:norace
func Getppid() int { return proc.Pid/2 + 1 }

//go:norace
func Hostname() (string, error) { return proc.Host, nil }

//go:norace
func Getenv(string) string { return proc.Env }

//go:norace
func LookupEnv(string) (string, bool) { return proc.Env, proc.Env != "" }

//go:norace
func Environ() []string {
	if proc.Env == "" {
		return nil
	}
	return []string{"LANG=" + proc.Env, "HOME=" + proc.Env}
}

// ---- time ----

var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

//go:norace
func (w *World) now() int64 { return w.clock + w.steps*1000 }

//go:norace
func Now() time.Time {
	t := epoch.Add(time.Duration(proc.Sec) * time.Second)
	if active == nil {
		return t
	}
	return t.Add(time.Duration(active.now()))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep parks the task for virtual time.
//
//go:norace
func Sleep(d time.Duration) {
	w := active
	if w == nil {
		return
	}
	if d <= 0 {
		w.yield(-3, true)
		return
	}
	w.cur.until = w.clock + int64(d)
	w.block("sleep", nil)
}

// Timer is time.Timer in virtual time, Ticker time.Ticker.
type Timer struct {
	C   <-chan time.Time
	c   chan time.Time
	f   func()
	gen *int
}
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	stop *bool
}

//go:norace
func (t *Timer) start(d time.Duration) {
	g := new(int)
	t.gen = g
	f, c := t.f, t.c
	Go(func() { timerTask(d, g, f, c) })
}

//go:norace
func timerTask(d time.Duration, g *int, f func(), c chan time.Time) {
	Sleep(d)
	if *g != 0 {
		return
	}
	*g = 1
	if f != nil {
		f()
		return
	}
	select {
	case c <- Now():
		if active != nil {
			active.wakeChan(chanID(c))
		}
	default:
	}
}

//go:norace
func (t *Timer) Stop() bool {
	was := *t.gen == 0
	*t.gen = 2
	return was
}

//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

func NewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func NewTicker(d time.Duration) *Ticker {
	t := &Ticker{c: make(chan time.Time, 1), stop: new(bool)}
	t.C = t.c
	t.run(d)
	return t
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func (t *Ticker) run(d time.Duration) {
	c, stop := t.c, t.stop
	Go(func() { tickerTask(d, c, stop) })
}

//go:norace
func tickerTask(d time.Duration, c chan time.Time, stop *bool) {
	for {
		Sleep(d)
		if *stop {
			return
		}
		select {
		case c <- Now():
			if active != nil {
				active.wakeChan(chanID(c))
			}
		default:
		}
	}
}

//go:norace
func (t *Ticker) Stop() { *t.stop = true }
func (t *Ticker) Reset(d time.Duration) {
	t.Stop()
	t.stop = new(bool)
	t.run(d)
}

// ---- randomness ----

//go:norace
func Uint64() uint64 {
	if active == nil {
		idSeq++
		return Mix(proc.Rand^0x3333, idSeq)
	}
	active.mapSeq++
	return Mix(active.cfg.MapSeed^proc.Rand^0x7777, active.mapSeq)
}

// HashSeed is what the process's hash functions start from.
//
//go:norace
func HashSeed() uint64 { return Mix(proc.Rand, 99) | 1 }

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func Uint32() uint32          { return uint32(Uint64()) }
func Int63() int64            { return int64(Uint64() >> 1) }
func Int31() int32            { return int32(Uint64() >> 33) }
func Int() int                { return int(uint(Uint64()) >> 1) }
func Int64() int64            { return Int63() }
func Int32() int32            { return Int31() }
func Int63n(n int64) int64    { return pos(n) }
func Int31n(n int32) int32    { return pos(n) }
func Intn(n int) int          { return pos(n) }
func Int64N(n int64) int64    { return pos(n) }
func Int32N(n int32) int32    { return pos(n) }
func IntN(n int) int          { return pos(n) }
func Uint64N(n uint64) uint64 { return pos(n) }
func Uint32N(n uint32) uint32 { return pos(n) }
func UintN(n uint) uint       { return pos(n) }
func Uint() uint              { return uint(Uint64()) }
func N[T integer](n T) T      { return pos(n) }
func pos[T integer](n T) T {
	if n <= 0 {
		panic("invalid argument to a random function")
	}
	return T(Uint64() % uint64(n))
}
func Float64() float64     { return float64(Uint64()>>11) / (1 << 53) }
func Float32() float32     { return float32(Uint64()>>40) / (1 << 24) }
func NormFloat64() float64 { return Float64()*6 - 3 }
func ExpFloat64() float64  { return Float64() * 3 }
func Seed(int64)           {}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

// CryptoRead is crypto/rand.Read, CryptoReader crypto/rand.Reader.
func CryptoRead(b []byte) (int, error) {
	var w [8]byte
	for i := 0; i < len(b); i += 8 {
		binary.LittleEndian.PutUint64(w[:], Uint64())
		copy(b[i:], w[:])
	}
	return len(b), nil
}

type cryptoReader struct{}

func (cryptoReader) Read(b []byte) (int, error) { return CryptoRead(b) }

var CryptoReader io.Reader = cryptoReader{}

// CryptoInt is crypto/rand.Int.
func CryptoInt(_ io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		return nil, errors.New("crypto/rand: argument to Int is <= 0")
	}
	return new(big.Int).Mod(new(big.Int).SetUint64(Uint64()), max), nil
}
