//go:build go1.23

package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/internal/verifsim/gen/cmdhangulize"
)

func init() { props["C25"] = &Prop{genC25, execC25} }

// ---- C25 ----

func genC25(r *Rng, p *Plan) {
	p.Cfg = randSched(r, 20_000)
	p.Cfg.MapOrder, p.Cfg.MapSeed = r.Of("sorted", "reverse", "shuffle"), r.U()
	if r.P(0.04) {
		p.Args = []string{"ls"}
		return
	}
	genFiles(r, p, true)
	names := []string{"d/b.hsl", "x", "y.hsl", "z.hsl"}
	for i, n := 0, r.N(4); i < n; i++ {
		f := SimFile{Name: names[i], Data: genSpec(r, SpecOpt{})}
		p.Files = append(p.Files, f)
		p.Args = slices.Insert(p.Args, r.N(len(p.Args)+1), f.Name)
	}
	for i := range p.Files {
		f := &p.Files[i]
		f.Data = strings.Replace(f.Data, "english = \"X\"", fmt.Sprintf("english = \"%s\"", r.Of("X", "", "A B", "Long long long name of a language", "한")), 1)
		f.Data = strings.Replace(f.Data, "korean = \"엑스\"", fmt.Sprintf("korean = \"%s\"", r.Of("엑스", "", "에이(제1안)", "가 나 다")), 1)
		f.Data = strings.Replace(f.Data, "stage = \"draft\"", "stage = "+r.Of("\"draft\"", "\"\"", "\"development and test\"", "\"stable\"", "x"), 1)
	}
	if r.P(0.2) && len(p.Args) > 0 {
		p.Args = append(p.Args, pick(r, p.Args))
	}
	p.Args = append([]string{"ls"}, p.Args...)
	if r.P(0.2) {
		p.Args = slices.Insert(p.Args, 1, "-v")
	}
}

func lsLine(s *hangulize.Spec) string {
	return strings.Join(strings.Fields(s.Lang.ID+" "+s.Config.Stage+" "+s.Lang.English+" "+s.Lang.Korean), " ")
}

// lsLines caches the lines of file contents and of the bundled languages.
var lsLines = map[string]string{}

func execC25(p *Plan) *Report {
	rep := &Report{}
	if len(p.Args) == 0 || p.Args[0] != "ls" {
		return rep
	}
	var want []string
	left := 0
	files := slices.DeleteFunc(slices.Clone(p.Args[1:]), func(a string) bool { return strings.HasPrefix(a, "-") })
	for _, n := range files {
		ok := false
		for i := range p.Files {
			f := &p.Files[i]
			if f.Name != n || f.OpenErr != "" || f.Dir || f.ReadErr > 0 {
				continue
			}
			data := string(f.Bytes())
			l, known := lsLines[data]
			if !known {
				newProcess(npCfg, true)
				if len(lsLines) > 5000 {
					lsLines = map[string]string{}
				}
				l = "-"
				if s, err := hangulize.ParseSpec(strings.NewReader(data)); err == nil {
					l = "+" + lsLine(s)
				}
				lsLines[data] = l
			}
			if l[0] == '+' {
				want = append(want, l[1:])
				ok = true
			}
			break
		}
		if !ok {
			left++
		}
	}
	if len(files) == 0 {
		l, ok := lsLines["*"]
		if !ok {
			newProcess(npCfg, true)
			var all []string
			for _, n := range langs {
				s, err := hangulize.LoadSpec(n)
				if err != nil {
					rep.fail("not-loaded", fmt.Sprintf("bundled language %s: %v", n, err))
					return rep
				}
				all = append(all, lsLine(s))
			}
			l = strings.Join(all, "\n")
			lsLines["*"] = l
		}
		want = strings.Split(l, "\n")
		rep.class("bundled")
	}
	cfg := p.Cfg
	cfg.MaxSteps = 400_000_000
	res, e := runCmd(p, p.Args, cfg, cmdhangulize.Main)
	rep.Dec = res.Decisions
	if !rep.cmdRun(res, e) {
		return rep
	}
	d := fmt.Sprintf("hangulize %q, faults %+v", p.Args, e.Fired)
	if res.Outcome == "crash" {
		rep.fail("crash", d+": "+res.Detail)
		return rep
	}
	out := string(e.Err)
	if len(e.Out) > 0 {
		out = string(e.Out)
	}
	var got []string
	seen := false
	for _, l := range strings.Split(out, "\n") {
		l = strings.Join(strings.Fields(l), " ")
		if !seen { // everything up to the heading
			seen = strings.HasPrefix(l, "LANG")
			continue
		}
		got = append(got, l)
	}
	for len(got) > 0 && got[len(got)-1] == "" && (len(want) == 0 || len(got) > len(want)) {
		got = got[:len(got)-1]
	}
	if !seen {
		rep.fail("no-listing", fmt.Sprintf("%s printed no list: %s", d, clip(out)))
		return rep
	}
	if !slices.Equal(got, want) {
		rep.fail("wrong-listing", fmt.Sprintf("%s lists\n%s\ninstead of\n%s", d, clip(strings.Join(got, "\n")), clip(strings.Join(want, "\n"))))
		return rep
	}
	if left > 0 {
		rep.class("file-left-out")
	}
	if len(want) > 0 {
		rep.class("listed")
	}
	return rep
}
