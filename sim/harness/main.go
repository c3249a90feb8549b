//go:build go1.23

package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/hangulize/hangulize/internal/verifsim/simos"
	"github.com/hangulize/hangulize/internal/verifsim/simrt"
)

var (
	raceLog string
	raceOff int64
)

// raceText returns the part of the race detector's log that is new.
func raceText() string {
	b, err := os.ReadFile(raceLog)
	if err != nil || int64(len(b)) <= raceOff {
		return "(no report text)"
	}
	t := string(b[raceOff:])
	raceOff = int64(len(b))
	if len(t) > 4000 {
		t = t[:4000]
	}
	return t
}

func skipRace() {
	if fi, err := os.Stat(raceLog); err == nil {
		raceOff = fi.Size()
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness batch|replay|hashes ...")
		os.Exit(2)
	}
	if g := os.Getenv("GORACE"); g != "" {
		for _, f := range strings.Fields(g) {
			if v, ok := strings.CutPrefix(f, "log_path="); ok {
				raceLog = v + "." + strconv.Itoa(os.Getpid())
			}
		}
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "first seed")
	step := fs.Uint64("step", 1, "seed step")
	count := fs.Int("n", 1<<30, "number of seeds")
	budget := fs.Float64("budget", 10, "seconds")
	shrinkFor := fs.Float64("shrink", 60, "seconds for minimising")
	out := fs.String("out", "", "directory for results")
	verbose := fs.Bool("v", false, "")
	known := fs.String("known", "", "signatures that are not minimised")
	fs.Parse(os.Args[2:])
	for _, s := range strings.Split(*known, ",") {
		knownSigs[s] = true
	}
	start := time.Now()
	go watchdog()
	initLangs()
	newProcess(npCfg, true)
	stdTsSchemes()
	switch cmd {
	case "batch":
		batch(*prop, *seed, *step, *count, *budget, *shrinkFor, *out, start)
	case "hashes": // seeds on stdin, one line each out
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			n, _ := strconv.ParseUint(strings.TrimSpace(sc.Text()), 10, 64)
			rep := runPlan(makePlan(*prop, n))
			fmt.Printf("%d %016x\n", n, rep.Hash)
		}
	case "gen":
		b, _ := json.MarshalIndent(makePlan(*prop, *seed), "", " ")
		fmt.Println(string(b))
	case "replay":
		b, err := os.ReadFile(fs.Arg(0))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var f ReplayFile
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		keepObs = *verbose
		rep := runPlan(f.Plan)
		if *verbose {
			for _, o := range rep.Obs {
				fmt.Println("obs:", o)
			}
		}
		o, _ := json.Marshal(map[string]any{"sig": rep.Sig, "violation": rep.Viol, "hash": fmt.Sprintf("%016x", rep.Hash)})
		fmt.Println(string(o))
		if rep.Viol != "" {
			os.Exit(1)
		}
	}
}

var knownSigs = map[string]bool{}

// ReplayFile is a violation with everything needed to see it again.
type ReplayFile struct {
	Property  string `json:"property"`
	Seed      uint64 `json:"seed"`
	Sig       string `json:"sig"`
	Violation string `json:"violation"`
	Hash      string `json:"hash"`
	Minimised string `json:"minimised"`
	Plan      *Plan  `json:"plan"`
}

func makePlan(prop string, seed uint64) *Plan {
	p := &Plan{Prop: prop, Seed: seed}
	props[prop].Gen(NewRng(seed), p)
	return p.clone() // what runs is exactly what a replay file would hold
}

var (
	progress int64
	curPlan  *Plan
	curFile  string
)

// watchdog ends the process when one run makes no progress in real time: code
// that neither yields nor returns.
func watchdog() {
	last, steps, stuck := int64(-1), int64(-1), 0
	for {
		time.Sleep(time.Second)
		if n := simrt.TotalSteps(); progress != last || n != steps {
			last, steps, stuck = progress, n, 0
			continue
		}
		stuck++
		if stuck >= watchLimit {
			if curFile != "" && curPlan != nil {
				b, _ := json.MarshalIndent(ReplayFile{Property: curPlan.Prop, Seed: curPlan.Seed, Sig: "hang", Violation: "a call neither returns nor reaches another statement", Minimised: "no", Plan: curPlan}, "", " ")
				os.WriteFile(curFile, b, 0o644)
			}
			fmt.Println(`{"sig":"hang","violation":"a call neither returns nor reaches another statement","hash":"0"}`)
			os.Exit(1)
		}
	}
}

const watchLimit = 60

func runPlan(p *Plan) *Report {
	progress++
	curPlan = p
	simos.Reset()
	pr := props[p.Prop]
	rep := pr.Exec(p)
	if rep.Viol == "" {
		skipRace()
	}
	return rep
}

// Stats is what a batch reports.
type Stats struct {
	Prop       string            `json:"prop"`
	Plans      int               `json:"plans"`
	Runs       int               `json:"runs"`
	Steps      int64             `json:"steps"`
	Switches   int64             `json:"switches"`
	Calls      int               `json:"calls"`
	SimNs      int64             `json:"sim_ns"`
	Nontrivial int               `json:"nontrivial"`
	Classes    map[string]int    `json:"classes"`
	Faults     map[string]int    `json:"faults"`
	Scheds     []string          `json:"scheds"`
	Hashes     map[string]string `json:"hashes"` // sample of seed -> hash
	Samples    []*Plan           `json:"samples"`
	Nondet     []string          `json:"nondet"`
	Distinct   []string          `json:"distinct"`
	Twins      int               `json:"twins"`
	Wall       float64           `json:"wall"`
	FirstSeed  uint64            `json:"first_seed"`
	LastSeed   uint64            `json:"last_seed"`
	Replays    []string          `json:"replays"`
	Policies   map[string]int    `json:"policies"`
	Next       uint64            `json:"next"`
	Stopped    string            `json:"stopped"`
}

func batch(prop string, seed, step uint64, count int, budget, shrinkFor float64, out string, start time.Time) {
	if props[prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	st := &Stats{Prop: prop, Classes: map[string]int{}, Faults: map[string]int{}, Hashes: map[string]string{}, Policies: map[string]int{}, FirstSeed: seed}
	scheds := map[uint64]bool{}
	distinct := map[uint64]bool{}
	curFile = filepath.Join(out, fmt.Sprintf("hang-%d.json", seed))
	sigs := map[string]bool{}
	cur, _ := os.Create(filepath.Join(out, "cur")) // the seed to blame if this process dies
	tainted := 0
	n := 0
	s := seed
	for ; n < count; n, s = n+1, s+step {
		if time.Since(start).Seconds() > budget {
			st.Stopped = "budget"
			break
		}
		p := makePlan(prop, s)
		if cur != nil {
			cur.WriteAt([]byte(fmt.Sprintf("%-24d\n", s)), 0)
		}
		rep := runPlan(p)
		st.Plans++
		st.Runs += rep.Runs
		st.Steps += rep.Steps
		st.Switches += rep.Switch
		st.Calls += rep.Calls
		st.SimNs += rep.Clock + rep.Steps*1000
		st.LastSeed = s
		st.Policies[p.Cfg.Policy]++
		for k, v := range rep.Faults {
			st.Faults[k] += v
		}
		for _, c := range rep.Classes {
			st.Classes[c]++
		}
		if len(scheds) < 300_000 {
			scheds[rep.SchedH] = true
		}
		if len(rep.Classes) > 0 {
			st.Nontrivial++
			if len(distinct) < 300_000 {
				distinct[rep.Hash] = true
			}
			if len(st.Samples) < 2 {
				st.Samples = append(st.Samples, p)
			}
		}
		if n < 40 && n%4 == 0 || n%97 == 0 && len(st.Hashes) < 60 {
			st.Hashes[fmt.Sprint(s)] = fmt.Sprintf("%016x", rep.Hash)
		}
		if rep.Viol == "" && (n < 5 || n%61 == 0) {
			// Twin execution: the same plan must do the same again.
			st.Twins++
			again := runPlan(p.clone())
			if again.Hash != rep.Hash && len(st.Nondet) < 20 {
				st.Nondet = append(st.Nondet, fmt.Sprintf("seed %d: %016x then %016x", s, rep.Hash, again.Hash))
			}
		}
		if rep.Viol != "" && !sigs[rep.Sig] {
			sigs[rep.Sig] = true
			budget := shrinkFor
			if knownSigs[rep.Sig] {
				budget = 0
			}
			min, note := shrink(p, rep, budget)
			mrep := runPlan(min.clone())
			for i := 0; i < 2 && mrep.Viol == ""; i++ { // the race detector forgets some accesses
				mrep = runPlan(min.clone())
			}
			if mrep.Viol == "" {
				min, note = p, "no: the minimised plan did not fail again"
				mrep = runPlan(p.clone())
			}
			if mrep.Viol == "" {
				mrep = rep
			}
			f := filepath.Join(out, fmt.Sprintf("o-%s-%d-%s.json", prop, s, rep.Sig))
			ob, _ := json.MarshalIndent(ReplayFile{prop, s, rep.Sig, rep.Viol, fmt.Sprintf("%016x", rep.Hash), "no", p}, "", " ")
			os.WriteFile(f, ob, 0o644)
			f = filepath.Join(out, fmt.Sprintf("v-%s-%d-%s.json", prop, s, mrep.Sig))
			b, _ := json.MarshalIndent(ReplayFile{prop, s, mrep.Sig, mrep.Viol, fmt.Sprintf("%016x", mrep.Hash), note, min}, "", " ")
			os.WriteFile(f, b, 0o644)
			st.Replays = append(st.Replays, f)
			if len(sigs) >= 3+len(knownSigs) {
				st.Stopped = "violations"
				break
			}
		}
		if rep.Tainted {
			tainted++
			if tainted > 3000 {
				st.Stopped = "recycle"
				s += step
				break
			}
		}
	}
	if maxRatio > 0 {
		fmt.Println("max steps per byte", maxRatio)
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Println("largest share of a step budget", simrt.MaxShare)
	}
	st.Next = s
	for h := range scheds {
		st.Scheds = append(st.Scheds, fmt.Sprintf("%x", h))
	}
	sort.Strings(st.Scheds)
	for h := range distinct {
		st.Distinct = append(st.Distinct, fmt.Sprintf("%x", h))
	}
	sort.Strings(st.Distinct)
	st.Wall = time.Since(start).Seconds()
	b, _ := json.Marshal(st)
	if err := os.WriteFile(filepath.Join(out, fmt.Sprintf("stats-%d.json", seed)), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
