//go:build go1.23

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/hangulize/hangulize/internal/verifsim/simrt"
)

// shrink makes a failing plan smaller while the same kind of violation remains.
func shrink(p *Plan, rep *Report, secs float64) (*Plan, string) {
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	tries, kept := 0, 0
	best := p.clone()
	sig := rep.Sig
	try := func(q *Plan) (*Report, bool) {
		if time.Now().After(deadline) {
			return nil, false
		}
		tries++
		r := runPlan(q.clone())
		if sig == "race" && r.Viol != "" && r.Sig == sig {
			// The race detector forgets some accesses: keep only what it sees
			// again.
			r = runPlan(q.clone())
		}
		return r, r.Viol != "" && r.Sig == sig
	}
	// Turn the random schedule into an explicit one.
	if best.Cfg.Policy != "list" && len(best.Tasks)+len(best.Args) > 0 {
		q := best.clone()
		q.Cfg = simrt.Config{Seed: best.Cfg.Seed, Policy: "list", List: rep.Dec, MapOrder: best.Cfg.MapOrder, MapSeed: best.Cfg.MapSeed, MaxSteps: best.Cfg.MaxSteps, MainExit: best.Cfg.MainExit, Proc: best.Cfg.Proc}
		if _, ok := try(q); ok {
			best = q
		}
	}
	accept := func(q *Plan) bool {
		r, ok := try(q)
		if ok {
			if q.Cfg.Policy != "list" {
				r.Dec = nil
			}
			best = q
			kept++
		}
		return ok
	}
	for round := 0; round < 6 && time.Now().Before(deadline); round++ {
		before := kept
		for _, f := range passes {
			f(&best, accept)
		}
		if kept == before {
			break
		}
	}
	return best, fmt.Sprintf("%d candidates, %d accepted", tries, kept)
}

type pass func(best **Plan, accept func(*Plan) bool)

// del removes chunks of a list, halving the chunk size.
func del[T any](get func(*Plan) *[]T) pass {
	return func(best **Plan, accept func(*Plan) bool) {
		n := len(*get(*best))
		for size := (n + 1) / 2; size >= 1; size /= 2 {
			for i := 0; i < len(*get(*best)); {
				q := (*best).clone()
				l := get(q)
				hi := min(i+size, len(*l))
				*l = append(append([]T(nil), (*l)[:i]...), (*l)[hi:]...)
				if !accept(q) {
					i += size
				}
			}
		}
	}
}

func set(f func(*Plan) bool) pass {
	return func(best **Plan, accept func(*Plan) bool) {
		q := (*best).clone()
		if f(q) {
			accept(q)
		}
	}
}

func lines(s string) []string { return strings.Split(s, "\n") }

var passes = []pass{
	// Schedule first: most decisions are noise.
	func(best **Plan, accept func(*Plan) bool) {
		if len((*best).Cfg.List) > 0 {
			q := (*best).clone()
			q.Cfg.List = nil
			if !accept(q) {
				del(func(p *Plan) *[]simrt.Decision { return &p.Cfg.List })(best, accept)
			}
		}
	},
	// whole tasks, keeping numbers of the others by emptying
	func(best **Plan, accept func(*Plan) bool) {
		for i := range (*best).Tasks {
			if len((*best).Tasks[i]) > 0 {
				q := (*best).clone()
				q.Tasks[i] = nil
				accept(q)
			}
		}
		for len((*best).Tasks) > 1 && len((*best).Tasks[len((*best).Tasks)-1]) == 0 {
			q := (*best).clone()
			q.Tasks = q.Tasks[:len(q.Tasks)-1]
			if !accept(q) {
				break
			}
		}
	},
	func(best **Plan, accept func(*Plan) bool) {
		for i := range (*best).Tasks {
			del(func(p *Plan) *[]Op { return &p.Tasks[i] })(best, accept)
		}
	},
	del(func(p *Plan) *[]Op { return &p.Setup }),
	del(func(p *Plan) *[]Op { return &p.After }),
	del(func(p *Plan) *[]string { return &stdinOf(p).Lines }),
	set(func(p *Plan) bool { s := stdinOf(p); ok := len(s.Cuts) > 0; s.Cuts, s.Ms = nil, nil; return ok }),
	set(func(p *Plan) bool {
		s := stdinOf(p)
		ok := len(s.Cuts) > 1
		s.Cuts = s.Cuts[:min(1, len(s.Cuts))]
		return ok
	}),
	set(func(p *Plan) bool { s := stdinOf(p); ok := len(s.Ms) > 0; s.Ms = nil; return ok }),
	del(func(p *Plan) *[]SimFile { return &p.Files }),
	del(func(p *Plan) *[]string { return &p.Args }),
	del(func(p *Plan) *[]simrt.Config { return &p.Alt }),
	set(func(p *Plan) bool { ok := p.Cfg.MapOrder != "sorted"; p.Cfg.MapOrder = "sorted"; return ok }),
	set(func(p *Plan) bool { ok := p.OutMs != 0; p.OutMs = 0; return ok }),
	set(func(p *Plan) bool { ok := p.OutErr != 0; p.OutErr = 0; return ok }),
	set(func(p *Plan) bool { ok := p.OutOnce; p.OutOnce = false; return ok }),
	set(func(p *Plan) bool { ok := p.ErrErr != 0; p.ErrErr = 0; return ok }),
	set(func(p *Plan) bool { s := stdinOf(p); ok := s.ErrAt > 0; s.ErrAt = 0; return ok }),
	// words
	func(best **Plan, accept func(*Plan) bool) {
		for t := range (*best).Tasks {
			for i := range (*best).Tasks[t] {
				for n := 0; n < 12; n++ {
					w := []rune((*best).Tasks[t][i].W)
					if len(w) < 2 || (*best).Tasks[t][i].WB != nil {
						break
					}
					half := (len(w) + 1) / 2
					q := (*best).clone()
					q.Tasks[t][i].W = string(w[:half])
					if accept(q) {
						continue
					}
					q = (*best).clone()
					q.Tasks[t][i].W = string(w[len(w)-half:])
					if accept(q) {
						continue
					}
					q = (*best).clone()
					q.Tasks[t][i].W = string(w[:len(w)-1])
					if !accept(q) {
						break
					}
				}
				q := (*best).clone()
				o := &q.Tasks[t][i]
				if o.R != nil {
					ch := false
					if len(o.R.Cuts) > 1 {
						o.R.Cuts = o.R.Cuts[:1]
						ch = true
					}
					if o.R.Empty > 0 {
						o.R.Empty = 0
						ch = true
					}
					if ch {
						accept(q)
					}
				}
				for k := len((*best).Tasks[t][i].Ops) - 1; k >= 0; k-- {
					q := (*best).clone()
					o := &q.Tasks[t][i]
					o.Ops = append(o.Ops[:k:k], o.Ops[k+1:]...)
					accept(q)
				}
			}
		}
	},
	// lines of sources
	func(best **Plan, accept func(*Plan) bool) {
		for i := range (*best).Specs {
			if (*best).N < 0 {
				break
			}
			ls := lines((*best).Specs[i])
			for size := (len(ls) + 1) / 2; size >= 1; size /= 2 {
				for k := 0; k < len(ls); {
					hi := min(k+size, len(ls))
					nl := append(append([]string(nil), ls[:k]...), ls[hi:]...)
					q := (*best).clone()
					q.Specs[i] = strings.Join(nl, "\n")
					if accept(q) {
						ls = nl
					} else {
						k += size
					}
				}
			}
		}
		for i := range (*best).Files {
			ls := lines((*best).Files[i].Data)
			for k := len(ls) - 1; k >= 0 && len(ls) > 1; k-- {
				nl := append(append([]string(nil), ls[:k]...), ls[k+1:]...)
				q := (*best).clone()
				q.Files[i].Data = strings.Join(nl, "\n")
				if accept(q) {
					ls = nl
				}
			}
		}
		for i := range stdinOf(*best).Lines {
			for n := 0; n < 20; n++ {
				d := []rune(stdinOf(*best).Lines[i])
				if len(d) < 2 {
					break
				}
				q := (*best).clone()
				q.Stdin.Lines[i] = string(d[:len(d)/2])
				if accept(q) {
					continue
				}
				q = (*best).clone()
				q.Stdin.Lines[i] = string(d[len(d)/2:])
				if !accept(q) {
					break
				}
			}
		}
	},
}

func stdinOf(p *Plan) *StdinPlan {
	if p.Stdin == nil {
		return &StdinPlan{}
	}
	return p.Stdin
}
