//go:build go1.23

package main

import (
	"encoding/json"
	"hash/fnv"
	"strings"

	"github.com/hangulize/hangulize/internal/verifsim/simrt"
)

// Rng is the generator's random source; everything a run does follows from its
// seed.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *Rng) U() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *Rng) In(lo, hi int) int     { return lo + r.N(hi-lo+1) }
func (r *Rng) P(p float64) bool      { return float64(r.U()>>11)/(1<<53) < p }
func (r *Rng) Of(l ...string) string { return l[r.N(len(l))] }

func pick[T any](r *Rng, l []T) T { return l[r.N(len(l))] }

// TPlan describes a stub translit.
type TPlan struct {
	Scheme string `json:"scheme"`
	Ver    int    `json:"ver"`
	Mode   string `json:"mode,omitempty"`  // "", upper, err, panic, reenter, yield
	Only   string `json:"only,omitempty"`  // fault only in op "task.op" (task.op of the caller), or in several
	Val    bool   `json:"val,omitempty"`   // a value of a type that cannot be compared
	SMode  string `json:"smode,omitempty"` // Scheme(): "", panic, reenter
	Ops    []Op   `json:"ops,omitempty"`   // for reenter
	Yields int    `json:"yields,omitempty"`
	Out    string `json:"out,omitempty"`
}

// RPlan describes how a reader delivers a source.
type RPlan struct {
	Cuts    []int  `json:"cuts,omitempty"`    // sizes of the pieces, then the rest
	Empty   int    `json:"empty,omitempty"`   // a 0,nil read before every n-th piece
	EOFWith bool   `json:"eofwith,omitempty"` // the last bytes come together with io.EOF
	ErrAt   int    `json:"errat,omitempty"`   // 1+offset at which the reader fails; 0 never
	ErrKind string `json:"errkind,omitempty"`
	ErrWith bool   `json:"errwith,omitempty"` // error together with the last bytes
	OneShot bool   `json:"oneshot,omitempty"` // after the error: end of file
}

// Op is one operation of a simulated client.
type Op struct {
	K    string   `json:"k"`
	Lang string   `json:"lang,omitempty"`
	W    string   `json:"w,omitempty"`
	WB   []byte   `json:"wb,omitempty"` // used instead of W if it is not valid UTF-8
	H    int      `json:"h,omitempty"`  // registry / Hangulizer: 0 default
	S    int      `json:"s,omitempty"`  // custom spec
	T    *TPlan   `json:"t,omitempty"`
	R    *RPlan   `json:"r,omitempty"`
	Mode string   `json:"mode,omitempty"`
	N    int      `json:"n,omitempty"`
	A    []string `json:"a,omitempty"`
	Ops  []Op     `json:"ops,omitempty"`
	Id   string   `json:"-"`
}

func (o Op) Word() string {
	if o.WB != nil {
		return string(o.WB)
	}
	return o.W
}

// SimFile describes a file of the simulated file system.
type SimFile struct {
	Name       string `json:"name"`
	Data       string `json:"data"`
	DataB      []byte `json:"datab,omitempty"`
	Dir        bool   `json:"dir,omitempty"`
	OpenErr    string `json:"openerr,omitempty"`
	OpenFail   int    `json:"openfail,omitempty"`
	ReadErr    int    `json:"readerr,omitempty"` // 1+offset
	ReadErrno  string `json:"readerrno,omitempty"`
	ReadFail   int    `json:"readfail,omitempty"`
	WriteErr   int    `json:"writeerr,omitempty"` // 1+offset
	WriteErrno string `json:"writeerrno,omitempty"`
	WriteOnce  bool   `json:"writeonce,omitempty"` // later writes succeed
	CloseErr   bool   `json:"closeerr,omitempty"`
	Chunk      int    `json:"chunk,omitempty"`
	Clean      bool   `json:"clean,omitempty"` // the source is as the generator wrote it
}

func (f SimFile) Bytes() []byte {
	if f.DataB != nil {
		return f.DataB
	}
	return []byte(f.Data)
}

// StdinPlan is the standard input of a command: lines, how they are cut into
// reads, and how the stream ends.
type StdinPlan struct {
	Lines  []string `json:"lines,omitempty"`
	LinesB [][]byte `json:"linesb,omitempty"` // instead of lines that are not UTF-8
	NoNL   bool     `json:"nonl,omitempty"`   // the last line has no newline
	Cuts   []int    `json:"cuts,omitempty"`   // sizes of the pieces, repeated
	Ms     []int    `json:"ms,omitempty"`     // delays before the pieces, repeated
	ErrAt  int      `json:"errat,omitempty"`  // 1+offset at which reading fails; 0 never
	Err    string   `json:"err,omitempty"`
	Once   bool     `json:"once,omitempty"` // after the failure, the rest can be read
}

func (s *StdinPlan) Line(i int) string {
	if i < len(s.LinesB) && s.LinesB[i] != nil {
		return string(s.LinesB[i])
	}
	return s.Lines[i]
}

// Text is the whole input.
func (s *StdinPlan) Text() string {
	if s == nil {
		return ""
	}
	var sb strings.Builder
	for i := range s.Lines {
		sb.WriteString(s.Line(i))
		if i < len(s.Lines)-1 || !s.NoNL {
			sb.WriteByte('\n')
		}
	}
	return sb.String()
}

// Plan is one simulated run, complete with its faults and schedule.
type Plan struct {
	Prop   string       `json:"prop"`
	Kind   string       `json:"kind,omitempty"` // scenario within the property
	Seed   uint64       `json:"seed"`
	Cfg    simrt.Config `json:"cfg"`
	Specs  []string     `json:"specs,omitempty"`
	unused map[int]bool // specs that are not parsed
	std    bool         // the standard translits are needed
	SpecB  [][]byte     `json:"specb,omitempty"` // sources that are not UTF-8
	Setup  []Op         `json:"setup,omitempty"`
	Tasks  [][]Op       `json:"tasks,omitempty"`
	After  []Op         `json:"after,omitempty"`
	// command runs
	Args     []string       `json:"args,omitempty"`
	Stdin    *StdinPlan     `json:"stdin,omitempty"`
	OutErr   int            `json:"outerr,omitempty"` // 1+offset
	OutErrno string         `json:"outerrno,omitempty"`
	OutOnce  bool           `json:"outonce,omitempty"` // later writes succeed
	OutMs    int            `json:"outms,omitempty"`
	ErrErr   int            `json:"errerr,omitempty"`
	Files    []SimFile      `json:"files,omitempty"`
	ReadOnly bool           `json:"readonly,omitempty"`
	Tabs     []PTab         `json:"tabs,omitempty"` // macros and variables
	Pool     int            `json:"pool,omitempty"` // 1+rate at which the tokenizer's pool hands out other nodes
	Alt      []simrt.Config `json:"alt,omitempty"`  // further executions to compare with
	N        int            `json:"n,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := new(Plan)
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// Report is what one execution of a plan showed.
type Report struct {
	Viol    string   // empty: the property held
	Sig     string   // stable kind of the violation
	Hash    uint64   // of schedule and all observations
	Classes []string // behaviours reached (nontrivial if any)
	Runs    int      // simulated worlds
	Steps   int64
	Switch  int64
	SchedH  uint64
	Faults  map[string]int
	Clock   int64
	Dec     []simrt.Decision
	Obs     []string // observations, for cross-process comparison
	Calls   int
	Tainted bool // leaked tasks
}

func (r *Report) fail(sig, msg string) {
	if r.Viol == "" {
		r.Viol, r.Sig = msg, sig
	}
}

func (r *Report) class(s string) {
	for _, c := range r.Classes {
		if c == s {
			return
		}
	}
	r.Classes = append(r.Classes, s)
}

func (r *Report) fault(k string, n int) {
	if n == 0 {
		return
	}
	if r.Faults == nil {
		r.Faults = map[string]int{}
	}
	r.Faults[k] += n
}

func (r *Report) obs(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	r.Hash = simrt.Mix(r.Hash, h.Sum64())
	if keepObs {
		r.Obs = append(r.Obs, s)
	}
}

var keepObs bool

func (r *Report) add(res simrt.Result) {
	r.Runs++
	r.Steps += res.Steps
	r.Switch += res.Switches
	r.Clock += res.Clock
	r.Hash = simrt.Mix(r.Hash, res.Hash)
	r.SchedH = simrt.Mix(r.SchedH, res.Hash)
	if len(res.Leftover) > 0 {
		r.Tainted = true
	}
}

// Prop is one property's scenario generator and oracle.
type Prop struct {
	Gen  func(r *Rng, p *Plan)
	Exec func(p *Plan) *Report
}

var props = map[string]*Prop{}

// randSched draws a scheduling policy.
func randSched(r *Rng, n int64) simrt.Config {
	c := simrt.Config{Seed: r.U(), MapSeed: r.U()}
	switch r.N(10) {
	case 0, 1, 2, 3:
		c.Policy = "rand"
		c.PHot = []float64{0.02, 0.1, 0.3, 0.5, 0.9}[r.N(5)]
		c.PCold = []float64{0, 0, 0.0005, 0.005, 0.05}[r.N(5)]
	case 4, 5, 6:
		c.Policy = "pct"
		c.K = r.In(1, 5)
		c.HotOnly = r.P(0.7)
		c.N = spread(r, n, c.HotOnly)
	case 7, 8:
		c.Policy = "pb"
		c.K = r.In(1, 8)
		c.HotOnly = r.P(0.7)
		c.N = spread(r, n, c.HotOnly)
	default:
		c.Policy = "np"
	}
	c.MapOrder = []string{"sorted", "reverse", "shuffle", "shuffle"}[r.N(4)]
	return c
}

var npCfg = simrt.Config{Policy: "np", MapOrder: "sorted"}

// spread picks the horizon of the change points around the expected length.
func spread(r *Rng, n int64, hot bool) int64 {
	if hot {
		return []int64{15, 60, 250, 1000}[r.N(4)]
	}
	return max(20, n>>(2*r.N(6)))
}
