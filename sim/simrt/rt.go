//go:build go1.23

// Package simrt is the deterministic simulator's kernel: tasks of which one
// runs at a time, a seeded scheduler that decides every switch, virtual time,
// and the reset of package state between runs.
//
// The package is compiled without race instrumentation and hides its own hand
// over from the race detector, so that the detector sees only the happens-before
// edges that the code under test establishes.
package simrt

import (
	"fmt"
	"runtime"
	"unsafe"
)

// Sites maps a yield id to file:line of the original source.
var Sites []string

const (
	stRun = iota
	stBlocked
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	ID     int
	wake   chan struct{}
	state  int
	local  int64 // yields executed
	blocks int64 // times it gave up the processor by blocking or ending
	site   int   // last yield site
	prio   int64
	fn     func()
	user   bool
	addr   unsafe.Pointer // waiting for this
	why    string
	until  int64 // virtual wake time, -1 none
	sel    *selWait
	plist  []Decision // explicit schedule
	blist  []Decision
	Data   any
}

// Decision is one non-default scheduling choice: task T, at its I-th yield
// (K="p") or I-th blocking (K="b"), handed over to task To.
type Decision struct {
	T  int    `json:"t"`
	K  string `json:"k"`
	I  int64  `json:"i"`
	To int    `json:"to"`
}

// Config controls one simulated run.
type Config struct {
	Seed     uint64     `json:"seed"`
	Policy   string     `json:"policy"` // np, rand, pb, pct, list
	PHot     float64    `json:"phot,omitempty"`
	PCold    float64    `json:"pcold,omitempty"`
	K        int        `json:"k,omitempty"`
	N        int64      `json:"n,omitempty"`
	HotOnly  bool       `json:"hot_only,omitempty"` // pb and pct count only yields at shared state
	MaxSteps int64      `json:"max_steps,omitempty"`
	MapOrder string     `json:"map_order,omitempty"` // sorted, reverse, shuffle
	MapSeed  uint64     `json:"map_seed,omitempty"`
	List     []Decision `json:"list,omitempty"`
	MainExit bool       `json:"main_exit,omitempty"` // the run ends when task 0 ends
	Proc     *Proc      `json:"proc,omitempty"`
}

// Result describes how the run ended.
type Result struct {
	Outcome   string // done, deadlock, livelock, exit, crash
	ExitCode  int
	Detail    string
	Steps     int64
	Switches  int64
	Hash      uint64
	Leftover  []string
	Decisions []Decision
	Blocks    int64
	Clock     int64
	Races     int
	SitesHit  int
}

// World is one simulated process.
type World struct {
	cfg       Config
	tasks     []*Task
	cur       *Task
	steps     int64
	sinceSw   int64
	hash      uint64
	rng       uint64
	hotLeft   int64
	coldLeft  int64
	nextCP    int64
	cps       []int64
	lowPrio   int64
	resched   bool
	clock     int64
	seq       int64
	decisions []Decision
	res       Result
	ended     bool
	done      chan struct{}
	ack       chan struct{}
	endSync   byte
	mapSeq    uint64
	blocks    int64
	hit       []bool
	hots      int64
}

var active *World

// OnEnd, if set, is called when the world ends.

const never = int64(1) << 62

//go:norace
func (w *World) rand() uint64 {
	w.rng += 0x9E3779B97F4A7C15
	z := w.rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Mix is a stateless hash used for seeded choices.
//
//go:norace
func Mix(a, b uint64) uint64 {
	z := a + 0x9E3779B97F4A7C15*(b+1)
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (w *World) geom(p float64) int64 {
	if p <= 0 {
		return never
	}
	// number of yields until the next preemption; uniform in [1, 2/p) keeps
	// the mean without needing logarithms.
	m := uint64(2 / p)
	if m < 1 {
		m = 1
	}
	return int64(w.rand()%m) + 1
}

// MaxShare is the largest share of its step budget that a world used.
var MaxShare float64

// Run executes fns as the initial tasks of a new world.
//
//go:norace
func Run(cfg Config, fns []func()) Result {
	if active != nil {
		panic("simrt: nested world")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 50_000_000
	}
	w := &World{cfg: cfg, rng: cfg.Seed ^ 0x5DEECE66D, hotLeft: never, coldLeft: never, nextCP: never, hash: 14695981039346656037,
		done: make(chan struct{}, 1), ack: make(chan struct{}, 1), hit: make([]bool, len(Sites))}
	switch cfg.Policy {
	case "rand":
		w.hotLeft, w.coldLeft = w.geom(cfg.PHot), w.geom(cfg.PCold)
	case "pb", "pct":
		n := cfg.N
		if n < 1 {
			n = 1
		}
		for i := 0; i < cfg.K; i++ {
			w.cps = append(w.cps, int64(w.rand()%uint64(n))+1)
		}
		for i := 1; i < len(w.cps); i++ {
			for j := i; j > 0 && w.cps[j] < w.cps[j-1]; j-- {
				w.cps[j], w.cps[j-1] = w.cps[j-1], w.cps[j]
			}
		}
		if len(w.cps) > 0 {
			w.nextCP = w.cps[0]
			w.cps = w.cps[1:]
		}
	}
	races := RaceErrors()
	Start(cfg.Proc)
	active = w
	for _, fn := range fns {
		w.spawn(fn, true)
	}
	if cfg.Policy == "list" {
		for _, d := range cfg.List {
			if d.T < 0 {
				continue
			}
			for d.T >= len(w.tasks) { // decisions of tasks spawned later
				break
			}
		}
	}
	first := w.pickFirst()
	w.cur = first
	w.note(first)
	raceDisable()
	first.wake <- struct{}{}
	<-w.done
	raceEnable()
	w.res.Races = RaceErrors() - races
	active = nil
	// Every task that is still parked hands its clock to the runner, so that
	// nothing it did can race with later runs.
	for _, t := range w.tasks {
		if t.state != stDone {
			raceDisable()
			t.wake <- struct{}{}
			<-w.ack
			raceEnable()
		}
	}
	RaceAcquire(unsafe.Pointer(&w.endSync))
	w.res.Steps, w.res.Hash, w.res.Clock = w.steps, w.hash, w.clock
	MaxShare = max(MaxShare, float64(w.steps)/float64(w.cfg.MaxSteps))
	w.res.Decisions = w.decisions
	w.res.Blocks = w.blocks
	for _, b := range w.hit {
		if b {
			w.res.SitesHit++
		}
	}
	return w.res
}

//go:norace
func (w *World) spawn(fn func(), user bool) *Task {
	t := &Task{ID: len(w.tasks), wake: make(chan struct{}, 1), fn: fn, user: user, until: -1}
	w.tasks = append(w.tasks, t)
	t.prio = int64(w.rand()>>16) + 1000
	if w.cfg.Policy == "list" {
		for _, d := range w.cfg.List {
			if d.T == t.ID {
				if d.K == "p" {
					t.plist = append(t.plist, d)
				} else {
					t.blist = append(t.blist, d)
				}
			}
		}
		sortDec(t.plist)
		sortDec(t.blist)
	}
	w.resched = true
	go w.main(t)
	return t
}

//go:norace
func sortDec(l []Decision) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j].I < l[j-1].I; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

//go:norace
func (w *World) main(t *Task) {
	t.sleep(w)
	normal := false
	defer func() {
		if normal {
			return
		}
		// A panic (or Goexit) that nothing recovered.
		r := recover()
		if r == nil {
			w.taskEnd(t)
			return
		}
		buf := make([]byte, 4096)
		buf = buf[:runtime.Stack(buf, false)]
		w.end(t, "crash", 2, fmt.Sprintf("panic: %v\n%s", r, buf))
	}()
	t.fn()
	normal = true
	w.taskEnd(t)
}

// sleep waits until the task is scheduled.
//
//go:norace
func (t *Task) sleep(w *World) {
	raceDisable()
	<-t.wake
	raceEnable()
	if w.ended {
		RaceReleaseMerge(unsafe.Pointer(&w.endSync))
		raceDisable()
		w.ack <- struct{}{}
		select {}
	}
}

//go:norace
func (w *World) taskEnd(t *Task) {
	t.state = stDone
	RaceReleaseMerge(unsafe.Pointer(&w.endSync))
	if w.cfg.MainExit && t.ID == 0 {
		w.finish("exit", 0, "main returned")
		return
	}
	n := w.choose(t, true)
	if n == nil {
		return // world finished
	}
	w.handTo(n)
}

// finish marks the end and tells the runner. The caller must not run
// instrumented code afterwards.
//
//go:norace
func (w *World) finish(outcome string, code int, detail string) {
	w.ended = true
	w.res.Outcome, w.res.ExitCode, w.res.Detail = outcome, code, detail
	for _, t := range w.tasks {
		if t.state != stDone {
			s := siteName(t.site)
			st := "runnable"
			if t.state == stBlocked {
				st = t.why
			}
			w.res.Leftover = append(w.res.Leftover, fmt.Sprintf("task %d %s at %s", t.ID, st, s))
		}
	}
	raceDisable()
	w.done <- struct{}{}
	raceEnable()
}

// end finishes the world from inside a running task and never returns.
//
//go:norace
func (w *World) end(t *Task, outcome string, code int, detail string) {
	if w.ended {
		select {}
	}
	RaceReleaseMerge(unsafe.Pointer(&w.endSync))
	t.state = stDone
	w.finish(outcome, code, detail)
	raceDisable()
	select {}
}

//go:norace
func (w *World) pickFirst() *Task {
	if w.cfg.Policy == "list" {
		for _, d := range w.cfg.List {
			if d.T == -1 && d.To < len(w.tasks) {
				return w.tasks[d.To]
			}
		}
		return w.tasks[0]
	}
	t := w.tasks[0]
	if w.cfg.Policy == "pct" {
		t = w.best()
	} else if !w.cfg.MainExit {
		t = w.tasks[w.rand()%uint64(len(w.tasks))]
	}
	if t.ID != 0 {
		w.decisions = append(w.decisions, Decision{-1, "b", 0, t.ID})
	}
	return t
}

//go:norace
func (w *World) best() *Task {
	var b *Task
	for _, t := range w.tasks {
		if t.state == stRun && (b == nil || t.prio > b.prio) {
			b = t
		}
	}
	return b
}

//go:norace
func (w *World) runnable() (n int) {
	for _, t := range w.tasks {
		if t.state == stRun {
			n++
		}
	}
	return
}

//go:norace
func (w *World) nth(k int) *Task {
	for _, t := range w.tasks {
		if t.state == stRun {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return nil
}

// choose picks the next task when cur cannot continue; nil means the world has
// been finished.
//
//go:norace
func (w *World) choose(cur *Task, ended bool) *Task {
	cur.blocks++
	w.blocks++
	for {
		n := w.runnable()
		if n > 0 {
			def := w.nth(0)
			pick := def
			switch w.cfg.Policy {
			case "list":
				for len(cur.blist) > 0 && cur.blist[0].I < cur.blocks {
					cur.blist = cur.blist[1:]
				}
				if len(cur.blist) > 0 && cur.blist[0].I == cur.blocks {
					to := cur.blist[0].To
					if to < len(w.tasks) && w.tasks[to].state == stRun {
						pick = w.tasks[to]
					}
				}
			case "pct":
				pick = w.best()
			default:
				pick = w.nth(int(w.rand() % uint64(n)))
			}
			if pick != def {
				w.decisions = append(w.decisions, Decision{cur.ID, "b", cur.blocks, pick.ID})
			}
			return pick
		}
		// advance virtual time
		at := never
		for _, t := range w.tasks {
			if t.state == stBlocked && t.until >= 0 && t.until < at {
				at = t.until
			}
		}
		if at < never {
			if at > w.clock {
				w.clock = at
			}
			for _, t := range w.tasks {
				if t.state == stBlocked && t.until >= 0 && t.until <= w.clock {
					w.ready(t)
				}
			}
			continue
		}
		live := 0
		userLive := 0
		for _, t := range w.tasks {
			if t.state != stDone {
				live++
				if t.user {
					userLive++
				}
			}
		}
		if !ended {
			RaceReleaseMerge(unsafe.Pointer(&w.endSync))
		}
		if live == 0 || (userLive == 0 && !w.cfg.MainExit) {
			w.finish("done", 0, "")
		} else {
			w.finish("deadlock", 2, "all goroutines are asleep - deadlock!")
		}
		return nil
	}
}

//go:norace
func (w *World) note(t *Task) {
	w.res.Switches++
	h := w.hash
	h = (h ^ uint64(t.ID)) * 1099511628211
	h = (h ^ uint64(t.local)) * 1099511628211
	if w.cur != nil {
		h = (h ^ uint64(w.cur.site)) * 1099511628211
	}
	w.hash = h
	w.sinceSw = 0
}

//go:norace
func (w *World) handTo(n *Task) {
	w.note(n)
	w.cur = n
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
}

// switchTo lets n run and returns when the current task is scheduled again.
//
//go:norace
func (w *World) switchTo(n *Task) {
	t := w.cur
	if n == t {
		return
	}
	w.handTo(n)
	t.sleep(w)
}

// block parks the current task until ready() was called for it.
//
//go:norace
func (w *World) block(why string, addr unsafe.Pointer) {
	t := w.cur
	t.state, t.why, t.addr = stBlocked, why, addr
	n := w.choose(t, false)
	if n == nil {
		raceDisable()
		<-t.wake // Run drains it
		raceEnable()
		RaceReleaseMerge(unsafe.Pointer(&w.endSync))
		raceDisable()
		w.ack <- struct{}{}
		select {}
	}
	if n == t {
		return
	}
	w.handTo(n)
	t.sleep(w)
}

//go:norace
func (w *World) ready(t *Task) {
	if t.state == stBlocked {
		t.state, t.addr, t.until = stRun, nil, -1
		w.resched = true
	}
}

// Y is a yield before an ordinary statement.
//
//go:norace
func Y(id int) {
	w := active
	if w == nil {
		return
	}
	w.yield(id, false)
}

// H is a yield before a statement that touches shared state.
//
//go:norace
func H(id int) {
	w := active
	if w == nil {
		return
	}
	w.yield(id, true)
}

const fairness = 400_000

//go:norace
func (w *World) yield(id int, hot bool) {
	t := w.cur
	t.local++
	if id >= 0 {
		t.site = id
	}
	w.steps++
	w.sinceSw++
	if id >= 0 && id < len(w.hit) {
		w.hit[id] = true
	}
	if w.steps > w.cfg.MaxSteps {
		w.end(t, "livelock", 2, fmt.Sprintf("no end after %d steps; task %d at %s", w.steps, t.ID, siteName(id)))
	}
	if w.sinceSw > fairness {
		w.sinceSw = 0
		for i := 1; i < len(w.tasks); i++ {
			n := w.tasks[(t.ID+i)%len(w.tasks)]
			if n.state == stRun && n != t {
				t.prio, w.lowPrio = w.lowPrio-1, w.lowPrio-1
				w.switchTo(n)
				return
			}
		}
		return
	}
	at := w.steps
	if hot {
		w.hots++
	}
	if w.cfg.HotOnly {
		at = w.hots
	}
	switch w.cfg.Policy {
	case "np":
		return
	case "rand":
		if hot {
			w.hotLeft--
			if w.hotLeft > 0 {
				return
			}
			w.hotLeft = w.geom(w.cfg.PHot)
		} else {
			w.coldLeft--
			if w.coldLeft > 0 {
				return
			}
			w.coldLeft = w.geom(w.cfg.PCold)
		}
	case "pb":
		if at < w.nextCP {
			return
		}
		w.advanceCP(at)
	case "pct":
		if at >= w.nextCP {
			w.advanceCP(at)
			w.lowPrio--
			t.prio = w.lowPrio
		} else if !w.resched {
			return
		}
		w.resched = false
		n := w.best()
		if n != t {
			w.decisions = append(w.decisions, Decision{t.ID, "p", t.local, n.ID})
			w.switchTo(n)
		}
		return
	case "list":
		if len(t.plist) == 0 || t.local < t.plist[0].I {
			return
		}
		to, at := t.plist[0].To, t.plist[0].I
		t.plist = t.plist[1:]
		if at == t.local && to < len(w.tasks) && to != t.ID && w.tasks[to].state == stRun {
			w.decisions = append(w.decisions, Decision{t.ID, "p", t.local, to})
			w.switchTo(w.tasks[to])
		}
		return
	}
	n := w.runnable()
	if n < 2 {
		return
	}
	k := int(w.rand() % uint64(n-1))
	var p *Task
	for _, x := range w.tasks {
		if x.state == stRun && x != t {
			if k == 0 {
				p = x
				break
			}
			k--
		}
	}
	w.decisions = append(w.decisions, Decision{t.ID, "p", t.local, p.ID})
	w.switchTo(p)
}

//go:norace
func (w *World) advanceCP(at int64) {
	w.nextCP = never
	for len(w.cps) > 0 {
		w.nextCP = w.cps[0]
		w.cps = w.cps[1:]
		if w.nextCP > at {
			break
		}
	}
}

//go:norace
func siteName(id int) string {
	if id >= 0 && id < len(Sites) {
		return Sites[id]
	}
	return "?"
}

// ---- API for simsync, simos and the harness ----

// Active tells whether a simulated world runs.
//
//go:norace
func Active() bool { return active != nil }

// Self returns the id of the running task.
//
//go:norace
func Self() int {
	if active == nil {
		return -1
	}
	return active.cur.ID
}

// Point is an explicit hot yield made by the harness (site -1).
//
//go:norace
func Point() {
	if active != nil {
		active.yield(-1, true)
	}
}

// Seq returns the next number of a global event counter.
//
//go:norace
func Seq() int64 {
	if active == nil {
		return 0
	}
	active.seq++
	return active.seq
}

// Steps returns the yields executed by the running task.
//
//go:norace
func Steps() int64 {
	if active == nil {
		return 0
	}
	return active.cur.local
}

// TotalSteps returns the yields executed by all tasks.
//
//go:norace
func TotalSteps() int64 {
	if active == nil {
		return 0
	}
	return active.steps
}

// Park blocks the running task until WakeOne or WakeAll on addr.
//
//go:norace
func Park(why string, addr unsafe.Pointer) {
	active.block(why, addr)
}

//go:norace
func WakeAll(addr unsafe.Pointer) {
	w := active
	if w == nil {
		return
	}
	for _, t := range w.tasks {
		if t.state == stBlocked && t.addr == addr {
			w.ready(t)
		}
	}
}

// WakeOne wakes one task parked on addr and tells whether there was one.
//
//go:norace
func WakeOne(addr unsafe.Pointer) bool {
	w := active
	if w == nil {
		return false
	}
	n := 0
	for _, t := range w.tasks {
		if t.state == stBlocked && t.addr == addr {
			n++
		}
	}
	if n == 0 {
		return false
	}
	k := int(Mix(w.cfg.Seed, uint64(w.steps)) % uint64(n))
	for _, t := range w.tasks {
		if t.state == stBlocked && t.addr == addr {
			if k == 0 {
				w.ready(t)
				return true
			}
			k--
		}
	}
	return false
}

// Choose returns a seeded number in [0,n).
//
//go:norace
func Choose(n int) int {
	w := active
	if w == nil || n <= 1 {
		return 0
	}
	w.mapSeq++
	return int(Mix(w.cfg.MapSeed^0xABCD, w.mapSeq) % uint64(n))
}

// Exit ends the simulated process.
//
//go:norace
func Exit(code int, detail string) {
	w := active
	w.end(w.cur, "exit", code, detail)
}

// Go starts a simulated goroutine.
//
//go:norace
func Go(fn func()) {
	w := active
	if w == nil {
		go fn()
		return
	}
	w.spawn(fn, false)
	w.yield(-2, true)
}
