//go:build go1.23

package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	props["C05"] = &Prop{genC05, execC05}
	props["C06"] = &Prop{genC06, execC06}
	props["C07"] = &Prop{genC07, execC07}
}

// ---- C05 ----

// Registries are either fixed while the tasks run (0 and 20, shared by all) or
// owned by one task (1+task), so which translits a call finds is known.
func genC05(r *Rng, p *Plan) {
	schemes := []string{"s1", "s2", "s3", "s10", "S1"}
	chain := func() []string {
		n := r.In(1, 4)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, pick(r, schemes))
		}
		return l
	}
	p.Specs = append(p.Specs, genSpec(r, SpecOpt{Translits: chain(), Rules: r.In(1, 3)}))
	if r.P(0.5) {
		p.Specs = append(p.Specs, genSpec(r, SpecOpt{Translits: chain(), Rules: 1}))
	}
	nt := r.In(1, 3)
	nops := make([]int, nt)
	for t := range nops {
		nops[t] = r.In(2, 6)
		if r.P(0.08) {
			nops[t] = r.In(7, 30)
			if r.P(0.15) {
				nops[t] = r.In(31, 150)
			}
		}
	}
	ver := 0
	stub := func(h int, s string) Op {
		ver++
		tp := &TPlan{Scheme: s, Ver: ver, Yields: r.N(3), Mode: r.Of("", "", "upper", "id")}
		switch {
		case h == 0:
			tp.Mode = "id"
		case r.P(0.06):
			tp.Mode = "const" // of nothing
		}
		if r.P(0.4) {
			tp.Mode = "err"
			tp.Out = r.Of("", "b", "é")
			if r.P(0.75) {
				t := r.N(nt)
				tp.Only = fmt.Sprintf("t%d.%d", t, r.N(nops[t]))
				if r.P(0.4) {
					// several in a row
					var l []string
					for i, n := 0, r.In(1, nops[t]); i < n; i++ {
						l = append(l, fmt.Sprintf("t%d.%d", t, i))
					}
					tp.Only = strings.Join(l, ",")
				}
			}
		}
		return Op{K: "use", H: h, T: tp}
	}
	shared := r.P(0.7)
	if shared {
		p.Setup = append(p.Setup, Op{K: "new", H: 20, S: r.N(len(p.Specs))})
		for _, s := range schemes {
			if r.P(0.85) {
				p.Setup = append(p.Setup, stub(20, s))
			}
		}
	}
	var dl string
	if r.P(0.3) {
		dl = r.Of("jpn", "chi", "bul", "rus", "ukr", "mkd")
		for _, s := range langTr[dl] {
			if r.P(0.8) {
				p.Setup = append(p.Setup, stub(0, s))
			}
		}
		if r.P(0.7) {
			p.Setup = append(p.Setup, Op{K: "load", Lang: dl})
		}
	}
	for t := 0; t < nt; t++ {
		p.Setup = append(p.Setup, Op{K: "new", H: t + 1, S: r.N(len(p.Specs))})
		for _, s := range schemes {
			if r.P(0.75) {
				p.Setup = append(p.Setup, stub(t+1, s))
			}
		}
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		w := genSmallWord(r)
		for i := 0; i < nops[t]; i++ {
			if r.P(0.5) {
				w = genSmallWord(r)
			}
			switch k := r.N(12); {
			case k < 6:
				ops = append(ops, Op{K: "hh", H: t + 1, W: w})
			case k < 8 && shared:
				ops = append(ops, Op{K: "hh", H: 20, W: w})
			case k < 9 && dl != "":
				ops = append(ops, Op{K: "hz", Lang: dl, W: genWord(r, dl)})
			case k < 11:
				ops = append(ops, stub(t+1, pick(r, schemes)))
			default:
				ops = append(ops, Op{K: "unuse", H: t + 1, W: pick(r, schemes)})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Cfg = randSched(r, 10_000)
}

// chainOf is what the required translits must do for one call.
func chainOf(need []string, reg map[string]*TPlan, id, word string) (calls []string, is, scheme string) {
	for _, s := range need {
		tp := reg[s]
		if tp == nil {
			return calls, "N", s
		}
		calls = append(calls, fmt.Sprintf("%s#%d(%q)", s, tp.Ver, word))
		if tp.Mode == "err" && tp.only(id) {
			return calls, "T", s
		}
		word = (&stubT{tp}).out(word)
	}
	return calls, "", ""
}

func execC05(p *Plan) *Report {
	rep := &Report{}
	s := newSt(p, rep)
	res := s.runTasks(p.Cfg, p.Tasks)
	rep.Dec = res.Decisions
	ok := rep.world(res)
	for _, rec := range s.all() {
		rep.obs(rec.OutT())
		rep.Calls++
	}
	if !ok {
		return rep
	}
	regs := map[int]map[string]*TPlan{}
	step := func(op *Op) {
		switch op.K {
		case "use":
			if regs[op.H] == nil {
				regs[op.H] = map[string]*TPlan{}
			}
			if regs[op.H][op.T.Scheme] == nil {
				regs[op.H][op.T.Scheme] = op.T
			}
		case "unuse":
			delete(regs[op.H], op.W)
		}
	}
	for i := range p.Setup {
		step(&p.Setup[i])
	}
	for _, recs := range s.recs {
		for _, rec := range recs {
			op := rec.Op
			if rec.Panic != "" {
				rep.fail("panic", op.K+" panicked: "+rec.Panic)
				return rep
			}
			if op.K != "hh" && op.K != "hz" || !rec.Done {
				step(op)
				continue
			}
			reg := regs[op.H]
			calls, is, scheme := chainOf(rec.Need, reg, op.Id, op.Word())
			d := fmt.Sprintf("task %d op %d %s(%q), requiring %v: %s, translit calls %v", rec.Task, rec.Idx, op.K, op.Word(), rec.Need, rec.Out(), rec.Calls)
			if strings.Join(calls, ";") != strings.Join(rec.Calls, ";") {
				rep.fail("calls", d+"; the translits should have been called as "+fmt.Sprint(calls))
				return rep
			}
			if is == "" {
				// as alone, with the same translits and no faults
				var extra []Op
				var ks []string
				for k := range reg {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					c := *reg[k]
					if c.Mode == "err" {
						c.Mode = ""
					}
					c.Only = ""
					extra = append(extra, Op{K: "use", H: op.H, T: &c})
				}
				q := &Plan{Specs: p.Specs}
				for _, o := range p.Setup {
					if o.K == "new" {
						q.Setup = append(q.Setup, o)
					}
				}
				want := soloCached(q, op, extra)
				if rec.ErrKind != "" || want.Res != rec.Res {
					rep.fail("healthy-call", d+"; expected the result "+want.Res)
					return rep
				}
				if len(rec.Calls) > 0 {
					rep.class("healthy")
				}
				continue
			}
			if is == "T" {
				rep.class("failed")
				rep.fault("translit error", 1)
			} else {
				rep.class("missing")
				rep.fault("translit missing", 1)
			}
			if rec.Res != "" {
				rep.fail("result-despite-failure", d+"; there must be no transcription")
			} else if !strings.Contains(rec.Is, is) {
				rep.fail("wrong-error", d+"; expected the error kind "+map[string]string{"T": "ErrTranslit", "N": "ErrTranslitNotImported"}[is])
			} else if !strings.Contains(rec.Err, scheme) {
				rep.fail("error-without-scheme", d+"; the error should name "+scheme)
			}
		}
	}
	return rep
}

// ---- C06 ----

func genC06(r *Rng, p *Plan) {
	nt := r.In(1, 3)
	nops := make([]int, nt)
	for t := range nops {
		nops[t] = r.In(2, 5)
	}
	where := func() string {
		t := r.N(nt)
		return fmt.Sprintf("t%d.%d", t, r.N(nops[t]))
	}
	lang := pick(r, smallLang)
	p.Specs = append(p.Specs, genSpec(r, SpecOpt{Translits: []string{"s1", "s2"}[:r.In(1, 2)], Rules: r.In(2, 4)}))
	p.Specs = append(p.Specs, genSpec(r, SpecOpt{Rules: 2}))
	// nested operations: their effects stay visible only in the zz schemes
	inner := func() []Op {
		var l []Op
		for i, n := 0, r.In(1, 3); i < n; i++ {
			switch r.N(9) {
			case 0, 1:
				l = append(l, Op{K: "hh", H: 1 + r.N(2), W: genSmallWord(r)})
			case 2:
				l = append(l, Op{K: "hz", Lang: lang, W: genWord(r, lang)})
			case 3:
				l = append(l, Op{K: r.Of("load", "unload"), Lang: lang})
			case 4, 5:
				l = append(l, Op{K: "use", H: r.N(3), T: &TPlan{Scheme: r.Of("zz0", "zz1"), Ver: 50 + r.N(9)}})
			case 6:
				l = append(l, Op{K: "unuse", H: r.N(3), W: r.Of("zz0", "zz1")})
			case 7:
				l = append(l, Op{K: "list", H: r.N(3)})
			default:
				l = append(l, Op{K: "parse", S: 1})
			}
		}
		return l
	}
	mode := func() (string, []Op) {
		if r.P(0.5) {
			return "panic", nil
		}
		return "reenter", inner()
	}
	p.Setup = append(p.Setup, Op{K: "new", H: 1, S: 0}, Op{K: "new", H: 2, S: 1})
	for i, s := range []string{"s1", "s2"} {
		tp := &TPlan{Scheme: s, Ver: i + 1, Yields: r.N(2)}
		if r.P(0.6) {
			tp.Mode, tp.Ops = mode()
			tp.Only = where()
		} else if r.P(0.3) {
			tp.SMode, tp.Ops = mode()
			tp.Only = where()
		}
		p.Setup = append(p.Setup, Op{K: "use", H: 1, T: tp})
	}
	for _, h := range []int{1, 2} {
		if r.P(0.6) {
			m, ops := mode()
			p.Setup = append(p.Setup, Op{K: "trace", H: h, Mode: m, N: r.In(1, 7), Ops: ops, T: &TPlan{Only: where()}})
		} else if r.P(0.5) {
			p.Setup = append(p.Setup, Op{K: "trace", H: h, Mode: "log"})
		}
	}
	if r.P(0.5) {
		p.Setup = append(p.Setup, Op{K: "load", Lang: lang})
	}
	p.Setup = append(p.Setup, stdStubs(0, 1)...)
	var storm *Op
	if r.P(0.05) { // callbacks that panic again and again
		n := r.Pick(20, 40, 80, 150, 300)
		p.Setup = append(p.Setup, Op{K: "new", H: 3, S: r.N(2)})
		for _, s := range []string{"s1", "s2"} {
			p.Setup = append(p.Setup, Op{K: "use", H: 3, T: &TPlan{Scheme: s, Ver: 1, Mode: r.Of("", "panic", "err")}})
		}
		if r.P(0.6) {
			p.Setup = append(p.Setup, Op{K: "trace", H: 3, Mode: "panic", N: r.In(1, 5), T: &TPlan{}})
		}
		storm = &Op{K: "loop", N: n, Ops: []Op{{K: "hh", H: 3, W: genSmallWord(r)}}}
	} else if r.P(0.02) { // callbacks that call the library, many levels deep
		n := r.Pick(5, 12, 20, 36, 70)
		w := genSmallWord(r)
		for i := 0; i < n; i++ {
			p.Setup = append(p.Setup, Op{K: "new", H: 20 + i, S: 1})
			if i < n-1 {
				p.Setup = append(p.Setup, Op{K: "trace", H: 20 + i, Mode: "reenter", N: 1, T: &TPlan{}, Ops: []Op{{K: "hh", H: 21 + i, W: w}}})
			}
		}
		storm = &Op{K: "hh", H: 20, W: w}
	}
	stormTask := r.N(nt)
	for t := 0; t < nt; t++ {
		var ops []Op
		if storm != nil && t == stormTask {
			ops = append(ops, *storm)
		}
		for i := len(ops); i < nops[t]; i++ {
			switch k := r.N(14); {
			case k < 6:
				ops = append(ops, Op{K: "hh", H: 1, W: genSmallWord(r)})
			case k < 8:
				ops = append(ops, Op{K: "hh", H: 2, W: genSmallWord(r)})
			case k < 9:
				ops = append(ops, Op{K: "hz", Lang: lang, W: genWord(r, lang)})
			case k < 12:
				tp := &TPlan{Scheme: r.Of("zz0", "zz1"), Ver: 60 + t*10 + i}
				if r.P(0.6) {
					tp.SMode, tp.Ops = mode()
					tp.Only = fmt.Sprintf("t%d.%d", t, i)
				}
				ops = append(ops, Op{K: "use", H: r.N(3), T: tp})
			case k < 13:
				ops = append(ops, Op{K: "unuse", H: r.N(3), W: r.Of("zz0", "zz1")})
			default:
				ops = append(ops, Op{K: "list", H: r.N(3)})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.After = []Op{
		{K: "hh", H: 1, W: genSmallWord(r)}, {K: "hh", H: 2, W: genSmallWord(r)}, {K: "list", H: 0}, {K: "list", H: 1}, {K: "list", H: 2},
		{K: "load", Lang: lang}, {K: "unload", Lang: lang}, {K: "hz", Lang: lang, W: genWord(r, lang)},
		{K: "use", H: 1, T: &TPlan{Scheme: "zz2", Ver: 99}}, {K: "list", H: 1}, {K: "unuse", H: 1, W: "zz2"}, {K: "list", H: 1},
	}
	p.Cfg = randSched(r, 20_000)
}

// flat lists the records with those of nested operations.
func flat(l []*Rec) (o []*Rec) {
	for _, r := range l {
		o = append(o, r)
		o = append(o, flat(r.Nested)...)
	}
	return
}

func execC06(p *Plan) *Report {
	rep := &Report{}
	s := newSt(p, rep)
	res := s.runTasks(p.Cfg, p.Tasks)
	rep.Dec = res.Decisions
	top := append([]*Rec(nil), s.all()...)
	ok := rep.world(res)
	for _, rec := range flat(top) {
		rep.obs(rec.OutT())
		rep.Calls++
	}
	if !ok {
		return rep
	}
	maxSeq := int64(0)
	for _, rec := range top {
		maxSeq = max(maxSeq, rec.Ret)
	}
	if len(p.After) > 0 {
		for i := range p.After {
			p.After[i].Id = fmt.Sprintf("a%d", i)
		}
		if !rep.world(s.runTasks(npCfg, [][]Op{p.After})) {
			return rep
		}
		for _, rec := range s.recs[0] {
			rec.Inv += maxSeq + 1
			rec.Ret += maxSeq + 1
			top = append(top, rec)
		}
	}
	l := flat(top)
	init := map[int]map[string]int{}
	for _, op := range p.Setup {
		if op.K == "use" {
			if init[op.H] == nil {
				init[op.H] = map[string]int{}
			}
			if _, dup := init[op.H][op.T.Scheme]; !dup {
				init[op.H][op.T.Scheme] = op.T.Ver
			}
		}
	}
	for _, rec := range l {
		op := rec.Op
		boom := strings.HasPrefix(rec.Panic, "boom in ")
		if rec.Panic != "" && !boom {
			rep.fail("panic", fmt.Sprintf("%s %s panicked: %s", op.Id, op.K, rec.Panic))
			return rep
		}
		if boom {
			rep.class("panic")
			rep.fault("callback panic", 1)
		}
		if len(rec.Nested) > 0 {
			rep.class("reenter")
			rep.fault("callback re-entry", 1)
		}
		switch op.K {
		case "hh", "hz", "parse":
			want := soloCached(p, op, nil)
			if want.OutT() != rec.OutT() {
				rep.fail("diff-"+op.K, fmt.Sprintf("%s %s(%s %q) gave %s, alone it gives %s", op.Id, op.K, op.Lang, op.Word(), rec.OutT(), want.OutT()))
				return rep
			}
		case "loop":
			rep.class("storm")
			if strings.HasPrefix(rec.Res, "round ") {
				rep.fail("storm", op.Id+": "+rec.Res)
				return rep
			}
		case "load":
			if rec.Spec == nil || rec.ErrKind != "" {
				rep.fail("load", op.Id+" load gave "+rec.Out())
				return rep
			}
		case "use":
			// The panic of a Scheme method must come through.
			if op.T.SMode == "panic" && op.T.Only == op.Id && !boom {
				rep.fail("panic-swallowed", op.Id+" UseTranslit: the panic of Scheme did not reach the caller: "+rec.Out())
				return rep
			}
		}
	}
	for reg := 0; reg < 3; reg++ {
		var ops []linOp
		var desc []string
		for _, rec := range l {
			rec := rec
			if rec.Op.K == "hh" || rec.Op.K == "hz" || regOf(rec.Op) != reg || rec.Panic != "" || !rec.Done {
				continue
			}
			d, f := regStep(s, rec)
			desc = append(desc, fmt.Sprintf("%s %s [%d,%d]", rec.Op.Id, d, rec.Inv, rec.Ret))
			ops = append(ops, linOp{rec.Inv, rec.Ret, f})
		}
		if len(ops) > 0 && !linearizable(encReg(init[reg]), ops) {
			rep.fail("registry", fmt.Sprintf("no sequential order explains the operations on registry %d (initially %s): %s", reg, encReg(init[reg]), strings.Join(desc, "; ")))
			return rep
		}
	}
	return rep
}

// ---- C07 ----

var stdSchemes = []string{"furigana", "pinyin", "cyrillic[bg]", "cyrillic[mk]", "cyrillic[ru]", "cyrillic[ua]"}

func genC07(r *Rng, p *Plan) {
	p.Specs = []string{"lang:\n    id = \"x\"\n    codes = \"x\", \"xxx\"\n    english = \"X\"\n    korean = \"X\"\n    script = \"Latn\"\n\ntranscribe:\n    \"a\" -> \"ㅏ\"\n"}
	some := append(append([]string(nil), stdTsSchemes()...), "s1", "Furigana", "cyrillic")
	ver := 0
	use := func(h int) Op {
		ver++
		return Op{K: "use", H: h, T: &TPlan{Scheme: pick(r, some), Ver: ver, Yields: r.N(2)}}
	}
	if r.P(0.5) {
		p.Kind = "own" // every task owns a registry; any history
		nt := r.In(1, 3)
		for t := 0; t < nt; t++ {
			h := t // task 0 owns the default registry
			if h > 0 {
				p.Setup = append(p.Setup, Op{K: "new", H: h, S: 0})
			}
			for i, n := 0, r.N(4)*r.N(2); i < n; i++ {
				p.Setup = append(p.Setup, use(h))
			}
			var ops []Op
			for i, n := 0, r.In(2, 8); i < n; i++ {
				switch k := r.N(10); {
				case k < 4:
					ops = append(ops, Op{K: "install", H: h})
				case k < 7:
					ops = append(ops, Op{K: "unuse", H: h, W: pick(r, some)})
				case k < 9:
					ops = append(ops, use(h))
				default:
					ops = append(ops, Op{K: "list", H: h})
				}
				if r.P(0.3) {
					ops = append(ops, Op{K: "list", H: h})
				}
			}
			if r.P(0.4) { // make room, then install for good
				for _, s := range some {
					ops = append(ops, Op{K: "unuse", H: h, W: s})
				}
				ops = append(ops, Op{K: "install", H: h})
			}
			ops = append(ops, Op{K: "list", H: h})
			p.Tasks = append(p.Tasks, ops)
		}
	} else {
		p.Kind = "shared" // installs and registrations race on shared registries
		p.Setup = append(p.Setup, Op{K: "new", H: 1, S: 0})
		for h := 0; h < 2; h++ {
			if r.P(0.5) {
				for i, n := 0, r.N(3); i < n; i++ {
					p.Setup = append(p.Setup, use(h))
				}
			}
		}
		nt := r.In(2, 4)
		hs := []int{0, 1}
		if r.P(0.6) {
			hs = []int{r.N(2)}
		}
		for t := 0; t < nt; t++ {
			var ops []Op
			for i, n := 0, r.In(1, 3); i < n; i++ {
				h := pick(r, hs)
				switch k := r.N(10); {
				case k < 6:
					ops = append(ops, Op{K: "install", H: h})
				case k < 8:
					ops = append(ops, use(h))
				default:
					ops = append(ops, Op{K: "list", H: h})
				}
			}
			p.Tasks = append(p.Tasks, ops)
		}
		p.After = []Op{{K: "list", H: 0}, {K: "list", H: 1}}
	}
	p.Cfg = randSched(r, 2_000)
}

var stdSchemeList []string

// stdTsSchemes lists the schemes that Install is about.
func stdTsSchemes() []string {
	if stdSchemeList == nil {
		for _, t := range stdTs() {
			stdSchemeList = append(stdSchemeList, t.Scheme())
		}
	}
	return stdSchemeList
}

// stdReg is a registry content as listOf shows it.
func regShow(m map[string]int) string {
	var l []string
	for k, v := range m {
		if v == 0 {
			l = append(l, k+"=std")
		} else {
			l = append(l, fmt.Sprintf("%s=%s#%d", k, k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func execC07(p *Plan) *Report {
	rep := &Report{}
	s := newSt(p, rep)
	res := s.runTasks(p.Cfg, p.Tasks)
	rep.Dec = res.Decisions
	l := append([]*Rec(nil), s.all()...)
	recs := append([][]*Rec(nil), s.recs...)
	ok := rep.world(res)
	for _, rec := range l {
		rep.obs(rec.Out())
		rep.Calls++
	}
	if !ok {
		return rep
	}
	std := stdTsSchemes()
	have := map[string]bool{}
	for _, x := range std {
		have[x] = true
	}
	for _, x := range stdSchemes {
		if !have[x] {
			rep.fail("std-missing", "the standard translits lack "+x)
			return rep
		}
	}
	regs := map[int]map[string]int{0: {}}
	apply := func(op *Op) bool {
		m := regs[op.H]
		switch op.K {
		case "new":
			regs[op.H] = map[string]int{}
			return true
		case "use":
			if _, dup := m[op.T.Scheme]; dup {
				return false
			}
			if m != nil {
				m[op.T.Scheme] = op.T.Ver
			}
			return true
		case "unuse":
			_, has := m[op.W]
			delete(m, op.W)
			return has
		case "install":
			for _, x := range std {
				if _, dup := m[x]; dup {
					return false
				}
			}
			for _, x := range std {
				if m != nil {
					m[x] = 0
				}
			}
			return true
		}
		return true
	}
	for i := range p.Setup {
		apply(&p.Setup[i])
	}
	for _, rec := range l {
		if rec.Panic != "" {
			rep.fail("panic", rec.Op.K+" panicked: "+rec.Panic)
			return rep
		}
	}
	if p.Kind == "own" {
		for _, recs := range recs {
			for _, rec := range recs {
				if !rec.Done {
					continue
				}
				before := regShow(regs[rec.Op.H])
				want := apply(rec.Op)
				if rec.Op.K == "list" {
					if got := strings.Join(rec.List, ","); got != before {
						rep.fail("registry", fmt.Sprintf("task %d op %d: the registry holds [%s], it should hold [%s]", rec.Task, rec.Idx, got, before))
						return rep
					}
					continue
				}
				if want != rec.Bool {
					rep.fail(rec.Op.K, fmt.Sprintf("task %d op %d: %s returned %v with [%s] registered", rec.Task, rec.Idx, rec.Op.K, rec.Bool, before))
					return rep
				}
				if rec.Op.K == "install" {
					rep.class(fmt.Sprintf("install-%v", want))
				}
			}
		}
		return rep
	}
	if overlapped(l) && res.Switches > 2 {
		rep.class("overlap")
	}
	if !rep.world(s.runTasks(npCfg, [][]Op{p.After})) {
		return rep
	}
	final := map[int]string{}
	for _, rec := range s.recs[0] {
		final[rec.Op.H] = strings.Join(rec.List, ",")
	}
	for h := 0; h < 2; h++ {
		want := map[string]int{}
		conflict := false
		for k, v := range regs[h] {
			want[k] = v
			conflict = conflict || have[k]
		}
		won, tried, racing := 0, 0, false
		for _, rec := range l {
			if rec.Op.H != h || !rec.Done {
				continue
			}
			switch {
			case rec.Op.K == "use" && have[rec.Op.T.Scheme]:
				racing = true
			case rec.Op.K == "install":
				tried++
			}
			if !rec.Bool {
				continue
			}
			switch rec.Op.K {
			case "use":
				if _, dup := want[rec.Op.T.Scheme]; dup {
					rep.fail("registered-twice", "registering "+rec.Op.T.Scheme+" succeeded although it was registered")
					return rep
				}
				want[rec.Op.T.Scheme] = rec.Op.T.Ver
			case "install":
				won++
				rep.class("install-true")
			}
		}
		d := fmt.Sprintf("registry %d, initially [%s]: %d installs, %d reported true, finally [%s]", h, regShow(regs[h]), tried, won, final[h])
		if won > 1 || won == 1 && conflict {
			rep.fail("installed-twice", d)
			return rep
		}
		if won == 1 {
			for _, x := range std {
				if _, dup := want[x]; dup {
					rep.fail("install-conflict", d+"; although "+x+" was registered by someone else")
					return rep
				}
				want[x] = 0
			}
		}
		if tried > 0 && won == 0 && !conflict && !racing {
			rep.fail("nobody-installed", d)
			return rep
		}
		if tried > won {
			rep.class("install-false")
		}
		if final[h] != regShow(want) {
			rep.fail("final-registry", d+"; it should hold ["+regShow(want)+"]")
			return rep
		}
	}
	return rep
}
