//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

func init() {
	props["C01"] = &Prop{genC01, execC01}
	props["C02"] = &Prop{genC02, execC02}
	props["C03"] = &Prop{genC03, execC03}
	props["C04"] = &Prop{genC04, execC04}
}

func overlapped(l []*Rec) bool {
	for i, a := range l {
		for _, b := range l[i+1:] {
			if a.Task != b.Task && a.Inv < b.Ret && b.Inv < a.Ret {
				return true
			}
		}
	}
	return false
}

var soloCache = map[string]*Rec{}

func soloCached(p *Plan, op *Op, extra []Op) *Rec {
	kb, _ := json.Marshal(struct {
		S  []string
		B  [][]byte
		U  []Op
		X  []Op
		O  *Op
		ID string
		T  []PTab
	}{p.Specs, p.SpecB, p.Setup, extra, op, op.Id, p.Tabs})
	k := string(kb)
	if r := soloCache[k]; r != nil {
		return r
	}
	r := solo(p, op, extra)
	if len(soloCache) > 4000 {
		soloCache = map[string]*Rec{}
	}
	soloCache[k] = r
	return r
}

// stdStubs are stand-ins for the standard translits that other languages need.
func stdStubs(h int, ver int) (l []Op) {
	for _, s := range []string{"furigana", "pinyin", "cyrillic[bg]", "cyrillic[mk]", "cyrillic[ru]", "cyrillic[ua]"} {
		l = append(l, Op{K: "use", H: h, T: &TPlan{Scheme: s, Ver: ver, Mode: "id"}})
	}
	return
}

// ---- C01 ----

func genC01(r *Rng, p *Plan) {
	nl := r.In(1, 3)
	ls := genLangs(r, nl)
	for i, n := 0, r.N(3); i < n; i++ {
		if i > 0 && r.P(0.5) {
			p.Specs = append(p.Specs, tweakSpec(r, p.Specs[0]))
		} else {
			p.Specs = append(p.Specs, genSpec(r, SpecOpt{Overlap: r.P(0.3)}))
		}
	}
	if r.P(0.7) {
		p.Setup = append(p.Setup, stdStubs(0, 1)...)
	}
	slot := 1
	slots := map[int]string{} // slot -> lang, or "" for a custom spec
	add := func(op Op) {
		p.Setup = append(p.Setup, op)
		slots[slot] = op.Lang
		slot++
	}
	for i := range p.Specs {
		add(Op{K: "new", H: slot, S: i})
	}
	if r.P(0.6) || len(p.Specs) == 0 {
		l := pick(r, ls)
		add(Op{K: "new", H: slot, Lang: l})
		if r.P(0.5) {
			p.Setup = append(p.Setup, Op{K: "use", H: slot - 1, T: &TPlan{Scheme: "furigana", Ver: 1, Mode: "id"}})
		}
		if r.P(0.4) {
			p.Setup = append(p.Setup, Op{K: "unload", Lang: l})
		}
	}
	word := func(l string) string {
		if l == "" {
			return genSmallWord(r)
		}
		return genWord(r, l)
	}
	shared := genSmallWord(r)
	nt := r.In(2, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.In(1, 4); i < n; i++ {
			switch k := r.N(20); {
			case k < 6:
				l := pick(r, ls)
				ops = append(ops, Op{K: "hz", Lang: l, W: word(l)})
			case k < 13:
				h := 1 + r.N(slot-1)
				w := word(slots[h])
				if slots[h] == "" && r.P(0.2) {
					w = shared
				}
				ops = append(ops, Op{K: "hh", H: h, W: w})
			case k < 14:
				ops = append(ops, Op{K: "load", Lang: pick(r, ls)})
			case k < 15:
				ops = append(ops, Op{K: "unload", Lang: pick(r, ls)})
			case k < 17:
				h := r.N(slot)
				s := fmt.Sprintf("zz%d", r.N(2))
				if r.P(0.6) {
					ops = append(ops, Op{K: "use", H: h, T: &TPlan{Scheme: s, Ver: t}})
				} else {
					ops = append(ops, Op{K: "unuse", H: h, W: s})
				}
			case k < 18:
				if len(p.Specs) > 0 {
					ops = append(ops, Op{K: "parsehz", S: r.N(len(p.Specs)), W: word("")})
				}
			case k < 19:
				ops = append(ops, Op{K: r.Of("langs", "list"), H: 0})
			default:
				h := 1 + r.N(slot-1)
				ops = append(ops, Op{K: "examples", H: h})
				if langSize[slots[h]] > 0 { // too long for bundled specs
					ops[len(ops)-1] = Op{K: "hh", H: h, W: word(slots[h])}
				}
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Cfg = randSched(r, 100_000)
}

func execC01(p *Plan) *Report {
	rep := &Report{}
	s := newSt(p, rep)
	res := s.runTasks(p.Cfg, p.Tasks)
	rep.Dec = res.Decisions
	l := s.all()
	ok := rep.world(res)
	for _, rec := range l {
		rep.obs(rec.Out())
		rep.Calls++
	}
	if overlapped(l) && res.Switches > 2 {
		rep.class("overlap")
	}
	if !ok {
		return rep
	}
	checkSolo(rep, p, l)
	return rep
}

// checkSolo compares every transcription with the same call made alone.
func checkSolo(rep *Report, p *Plan, l []*Rec) {
	for _, rec := range l {
		switch rec.Op.K {
		case "hz", "hh", "parsehz", "examples", "langs":
			want := soloCached(p, rec.Op, nil)
			if rec.OutT() != want.OutT() {
				rep.fail("diff-"+rec.Op.K, fmt.Sprintf("task %d op %d %s(%s %q) gave %s, alone it gives %s", rec.Task, rec.Idx, rec.Op.K, rec.Op.Lang, rec.Op.Word(), rec.OutT(), want.OutT()))
			}
			if rec.ErrKind != "" {
				rep.class("error-result")
			}
		case "load":
			if rec.Spec == nil || rec.ErrKind != "" || rec.Panic != "" {
				rep.fail("load", "LoadSpec("+rec.Op.Lang+") failed: "+rec.Out())
			}
			rep.class("load")
		case "unload":
			rep.class("unload")
		case "use", "unuse":
			rep.class("registry-change")
			if rec.Panic != "" {
				rep.fail("panic", rec.Op.K+" panicked: "+rec.Panic)
			}
		}
	}
}

// ---- C02 ----

var unknownLangs = []string{"", "xx", "ITA", "ita.hsl", "../specs/ita", "it", "ita ", "ita\x00", "*", "specs/ita", "por-", "/", "ita/"}

func genC02(r *Rng, p *Plan) {
	ls := genLangs(r, r.In(1, 2))
	if r.P(0.3) {
		p.Setup = append(p.Setup, Op{K: "load", Lang: ls[0]})
	}
	if r.P(0.2) {
		p.Setup = append(p.Setup, stdStubs(0, 1)...)
	}
	p.Setup = append(p.Setup, Op{K: "new", H: 1, Lang: ls[0]})
	if r.P(0.5) {
		p.Setup = append(p.Setup, Op{K: "unload", Lang: ls[0]})
	}
	nt := r.In(2, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.In(1, 4); i < n; i++ {
			l := pick(r, ls)
			switch k := r.N(20); {
			case k < 9:
				ops = append(ops, Op{K: "load", Lang: l})
			case k < 14:
				ops = append(ops, Op{K: "unload", Lang: l})
			case k < 15:
				ops = append(ops, Op{K: "load", Lang: pick(r, unknownLangs)})
			case k < 16:
				ops = append(ops, Op{K: "hz", Lang: pick(r, unknownLangs), W: genSmallWord(r)})
			case k < 17:
				ops = append(ops, Op{K: "unload", Lang: pick(r, append(unknownLangs, langs...))})
				if ops[len(ops)-1].Lang == l {
					break
				}
			case k < 18:
				ops = append(ops, Op{K: "hz", Lang: l, W: genWord(r, l)})
			case k < 19:
				ops = append(ops, Op{K: "hh", H: 1, W: genWord(r, ls[0])})
			default:
				ops = append(ops, Op{K: "langs"})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(0.01) {
		// A full cache.
		for _, l := range langs {
			p.Tasks[0] = append(p.Tasks[0], Op{K: "load", Lang: l})
		}
		p.Tasks[0] = append(p.Tasks[0], Op{K: "load", Lang: ls[0]}, Op{K: "load", Lang: pick(r, langs)})
	}
	// Sequential tail: what the cache holds afterwards.
	for _, l := range ls {
		p.After = append(p.After, Op{K: "load", Lang: l}, Op{K: "load", Lang: l}, Op{K: "unload", Lang: l}, Op{K: "load", Lang: l})
	}
	p.Cfg = randSched(r, 200_000)
}

func execC02(p *Plan) *Report {
	rep := &Report{}
	s := newSt(p, rep)
	var initial = map[string]*Rec{}
	// What the setup left in the cache is not visible; learn it from the
	// setup's own records by replaying the specification.
	res := s.runTasks(p.Cfg, p.Tasks)
	rep.Dec = res.Decisions
	l := append([]*Rec(nil), s.all()...)
	ok := rep.world(res)
	for _, rec := range l {
		rep.obs(rec.Out())
		rep.Calls++
	}
	if overlapped(l) && res.Switches > 2 {
		rep.class("overlap")
	}
	if !ok {
		return rep
	}
	_ = initial
	maxSeq := int64(0)
	for _, rec := range l {
		maxSeq = max(maxSeq, rec.Ret)
	}
	if len(p.After) > 0 {
		s.recs[0] = nil
		res := s.runTasks(npCfg, [][]Op{p.After})
		if !rep.world(res) {
			return rep
		}
		for _, rec := range s.recs[0] {
			rec.Inv += maxSeq + 1
			rec.Ret += maxSeq + 1
			l = append(l, rec)
		}
	}
	// Which language was cached when the tasks started?
	cached := map[string]bool{}
	for _, op := range p.Setup {
		switch op.K {
		case "load":
			cached[op.Lang] = true
		case "new":
			cached[op.Lang] = true
		case "unload":
			delete(cached, op.Lang)
		}
	}
	ids := map[any]int{}
	known := map[string]bool{}
	for _, x := range langs {
		known[x] = true
	}
	byLang := map[string][]*Rec{}
	for _, rec := range l {
		op := rec.Op
		switch op.K {
		case "load":
			if !known[op.Lang] {
				if rec.Spec != nil || rec.ErrKind != "notfound" || rec.Panic != "" {
					rep.fail("unknown-lang", fmt.Sprintf("LoadSpec(%q) gave spec=%v %s, want the not-found error and no spec", op.Lang, rec.Spec != nil, rec.Out()))
				}
				rep.class("unknown")
				continue
			}
			if rec.Spec == nil || rec.ErrKind != "" || rec.Panic != "" {
				rep.fail("load-fails", fmt.Sprintf("LoadSpec(%q) gave %s", op.Lang, rec.Out()))
				continue
			}
			if _, ok := ids[rec.Spec]; !ok {
				ids[rec.Spec] = len(ids) + 1
				if rec.Spec.Lang.ID != op.Lang || rec.Spec.Source != langSrc[op.Lang] {
					rep.fail("wrong-spec", fmt.Sprintf("LoadSpec(%q) returned the spec of %q", op.Lang, rec.Spec.Lang.ID))
				} else if f := refFP(op.Lang); f != specFP(rec.Spec) {
					rep.fail("not-equivalent", fmt.Sprintf("LoadSpec(%q) returned a spec that differs from a freshly parsed one", op.Lang))
				}
			}
			byLang[op.Lang] = append(byLang[op.Lang], rec)
		case "unload":
			if rec.Panic != "" {
				rep.fail("panic", "UnloadSpec panicked: "+rec.Panic)
			}
			if known[op.Lang] {
				byLang[op.Lang] = append(byLang[op.Lang], rec)
				rep.class("unload")
			}
		case "langs":
			if rec.Res != strings.Join(langs, ",") {
				rep.fail("langs", "ListLangs gave "+rec.Res)
			}
		case "hz", "hh":
			if op.K == "hz" && !known[op.Lang] {
				if rec.ErrKind != "notfound" {
					rep.fail("unknown-lang", fmt.Sprintf("Hangulize(%q, …) gave %s, want the not-found error", op.Lang, rec.Out()))
				}
				continue
			}
			want := soloCached(p, op, nil)
			if rec.OutT() != want.OutT() {
				rep.fail("diff-"+op.K, fmt.Sprintf("%s(%s %q) gave %s, alone it gives %s", op.K, op.Lang, op.Word(), rec.OutT(), want.OutT()))
			}
		}
	}
	var ks []string
	for k := range byLang {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, lang := range ks {
		var ops []linOp
		var desc []string
		for _, rec := range byLang[lang] {
			id := 0
			if rec.Spec != nil {
				id = ids[rec.Spec]
			}
			desc = append(desc, fmt.Sprintf("task %d %s [%d,%d] -> spec %d", rec.Task, rec.Op.K, rec.Inv, rec.Ret, id))
			if rec.Op.K == "unload" {
				ops = append(ops, linOp{rec.Inv, rec.Ret, func(st string) (string, bool) {
					_, used, _ := strings.Cut(st, "|")
					return "-|" + used, true
				}})
				continue
			}
			me := fmt.Sprint(id)
			ops = append(ops, linOp{rec.Inv, rec.Ret, func(st string) (string, bool) {
				cur, used, _ := strings.Cut(st, "|")
				fresh := !strings.Contains(used, ","+me+",")
				switch cur {
				case "-":
					if !fresh {
						return "", false
					}
				case "?": // cached before the tasks began; not seen yet
					if !fresh {
						return "", false
					}
				default:
					return st, cur == me
				}
				if fresh {
					used += "," + me + ","
				}
				return me + "|" + used, true
			}})
		}
		init := "-|"
		if cached[lang] {
			init = "?|"
			rep.class("warm")
		} else {
			rep.class("cold")
		}
		if !linearizable(init, ops) {
			rep.fail("not-linearizable", fmt.Sprintf("no sequential order of the loads and unloads of %q explains which spec each load returned: %s", lang, strings.Join(desc, "; ")))
		}
	}
	return rep
}

var refFPs = map[string]string{}

// refFP is the fingerprint of a bundled spec loaded alone in a new process.
func refFP(lang string) string {
	if f, ok := refFPs[lang]; ok {
		return f
	}
	rec := solo(&Plan{}, &Op{K: "load", Lang: lang}, nil)
	f := specFP(rec.Spec)
	refFPs[lang] = f
	return f
}

// ---- C03 ----

var c03Schemes = []string{"s1", "s2", "s3"}

func genC03(r *Rng, p *Plan) {
	// registries: 0 the default one, reached through a bundled language that
	// needs a translit; 1.. Hangulizers of custom specs.
	nreg := r.In(1, 2)
	for i := 0; i < nreg; i++ {
		need := c03Schemes[:r.In(1, 3)]
		need = append([]string(nil), need...)
		if r.P(0.3) {
			need[0], need[len(need)-1] = need[len(need)-1], need[0]
		}
		if r.P(0.1) {
			need = append(need, need[0])
		}
		p.Specs = append(p.Specs, genSpec(r, SpecOpt{Translits: need, Rules: 2}))
		p.Setup = append(p.Setup, Op{K: "new", H: i + 1, S: i})
	}
	ver := 1
	var used []*TPlan
	use := func(h int, s string) Op {
		if len(used) > 0 && r.P(0.15) {
			// the same translit again, or on another registry
			t := *pick(r, used)
			if h > 0 {
				return Op{K: "use", H: h, T: &t}
			}
		}
		ver++
		t := &TPlan{Scheme: s, Ver: ver, Yields: r.N(3), Val: r.P(0.15)}
		if h > 0 {
			used = append(used, t)
		}
		return Op{K: "use", H: h, T: t}
	}
	useDefault := r.P(0.5)
	dl := r.Of("jpn", "chi", "bul", "rus")
	ds := "furigana"
	if t := langTr[dl]; len(t) > 0 {
		ds = t[0]
	}
	for i := 0; i < nreg; i++ {
		for _, s := range c03Schemes {
			if r.P(0.6) {
				p.Setup = append(p.Setup, use(i+1, s))
			}
		}
	}
	if useDefault {
		if r.P(0.5) {
			o := use(0, ds)
			o.T.Mode = "id"
			p.Setup = append(p.Setup, o)
		}
		if r.P(0.8) {
			p.Setup = append(p.Setup, Op{K: "load", Lang: dl})
		}
	}
	nt := r.In(2, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.In(1, 5); i < n; i++ {
			h := 1 + r.N(nreg)
			s := pick(r, c03Schemes)
			if useDefault && r.P(0.4) {
				h, s = 0, ds
				if r.P(0.2) {
					s = "s1"
				}
			}
			switch r.N(9) {
			case 0, 1, 2:
				o := use(h, s)
				if h == 0 {
					o.T.Mode = "id"
				}
				ops = append(ops, o)
			case 3, 4:
				ops = append(ops, Op{K: "unuse", H: h, W: s})
			case 5:
				ops = append(ops, Op{K: r.Of("list", "listmut"), H: h})
			default:
				if h == 0 {
					ops = append(ops, Op{K: "hz", Lang: dl, W: genWord(r, dl)})
				} else {
					ops = append(ops, Op{K: "hh", H: h, W: genSmallWord(r)})
				}
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	for h := 0; h <= nreg; h++ {
		p.After = append(p.After, Op{K: "list", H: h})
	}
	p.N = 0
	p.Cfg = randSched(r, 20_000)
}

func encReg(m map[string]int) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s#%d", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func decReg(s string) map[string]int {
	m := map[string]int{}
	if s != "" {
		for _, x := range strings.Split(s, ",") {
			i := strings.LastIndexByte(x, '#')
			v := 0
			fmt.Sscan(x[i+1:], &v)
			m[x[:i]] = v
		}
	}
	return m
}

// regOf returns the registry that an operation touches, -1 for none.
func regOf(op *Op) int {
	switch op.K {
	case "use", "unuse", "list", "listmut", "hh", "relist":
		return op.H
	case "hz":
		return 0
	}
	return -1
}

// seen describes which registrations a transcription used: pairs of scheme and
// version in order, and the scheme it reported missing.
func seen(rec *Rec) (used []string, missing string, ok bool) {
	for _, c := range rec.Calls {
		i := strings.IndexByte(c, '(')
		used = append(used, c[:i])
	}
	return used, "", true
}

func execC03(p *Plan) *Report {
	rep := &Report{}
	s := newSt(p, rep)
	res := s.runTasks(p.Cfg, p.Tasks)
	rep.Dec = res.Decisions
	l := append([]*Rec(nil), s.all()...)
	ok := rep.world(res)
	for _, rec := range l {
		rep.obs(rec.Out() + strings.Join(rec.Calls, ";"))
		rep.Calls++
	}
	if overlapped(l) && res.Switches > 2 {
		rep.class("overlap")
	}
	if !ok {
		return rep
	}
	maxSeq := int64(0)
	for _, rec := range l {
		maxSeq = max(maxSeq, rec.Ret)
	}
	if len(p.After) > 0 {
		if !rep.world(s.runTasks(npCfg, [][]Op{p.After})) {
			return rep
		}
		for _, rec := range s.recs[0] {
			rec.Inv += maxSeq + 1
			rec.Ret += maxSeq + 1
			l = append(l, rec)
		}
	}
	init := map[int]map[string]int{}
	for _, op := range p.Setup {
		if op.K == "use" {
			if init[op.H] == nil {
				init[op.H] = map[string]int{}
			}
			if _, dup := init[op.H][op.T.Scheme]; !dup {
				init[op.H][op.T.Scheme] = op.T.Ver
			}
		}
	}
	for reg := 0; reg < 8; reg++ {
		var ops []linOp
		var desc []string
		for _, rec := range l {
			rec := rec
			if regOf(rec.Op) != reg || !rec.Done && rec.Panic == "" {
				continue
			}
			if rec.Panic != "" {
				rep.fail("panic", fmt.Sprintf("%s panicked: %s", rec.Op.K, rec.Panic))
				return rep
			}
			d, f := regStep(s, rec)
			if f == nil {
				rep.fail("malformed", fmt.Sprintf("task %d %s: %s; calls %v", rec.Task, d, rec.Out(), rec.Calls))
				return rep
			}
			desc = append(desc, fmt.Sprintf("task %d %s [%d,%d]", rec.Task, d, rec.Inv, rec.Ret))
			ops = append(ops, linOp{rec.Inv, rec.Ret, f})
		}
		if len(ops) == 0 {
			continue
		}
		rep.class(fmt.Sprintf("registry-%d", min(reg, 1)))
		if !linearizable(encReg(init[reg]), ops) {
			rep.fail("not-linearizable", fmt.Sprintf("no sequential order explains the operations on registry %d (initially %s): %s", reg, encReg(init[reg]), strings.Join(desc, "; ")))
			return rep
		}
	}
	// Each result is the one that the translits used lead to.
	for _, rec := range l {
		if (rec.Op.K == "hz" || rec.Op.K == "hh") && rec.ErrKind == "" {
			var extra []Op
			var q Plan
			q.Specs, q.SpecB = p.Specs, p.SpecB
			for _, o := range p.Setup {
				if o.K == "new" {
					q.Setup = append(q.Setup, o)
				}
			}
			used, _, _ := seen(rec)
			for _, u := range used {
				m := decReg(u)
				for k, v := range m {
					mode := ""
					if rec.Op.H == 0 {
						mode = "id"
					}
					extra = append(extra, Op{K: "use", H: rec.Op.H, T: &TPlan{Scheme: k, Ver: v, Mode: mode}})
				}
			}
			want := soloCached(&q, rec.Op, extra)
			if want.OutT() != rec.OutT() {
				rep.fail("diff", fmt.Sprintf("task %d %s(%q) with translits %v gave %s, alone it gives %s", rec.Task, rec.Op.K, rec.Op.Word(), used, rec.OutT(), want.OutT()))
			}
		}
	}
	return rep
}

// regStep describes a record as a step of the registry specification.
func regStep(s *St, rec *Rec) (string, func(string) (string, bool)) {
	op := rec.Op
	switch op.K {
	case "use":
		d := fmt.Sprintf("use(%s#%d)=%v", op.T.Scheme, op.T.Ver, rec.Bool)
		return d, func(st string) (string, bool) {
			m := decReg(st)
			_, has := m[op.T.Scheme]
			if has == rec.Bool {
				return "", false
			}
			if !has {
				m[op.T.Scheme] = op.T.Ver
			}
			return encReg(m), true
		}
	case "unuse":
		d := fmt.Sprintf("unuse(%s)=%v", op.W, rec.Bool)
		return d, func(st string) (string, bool) {
			m := decReg(st)
			_, has := m[op.W]
			if has != rec.Bool {
				return "", false
			}
			delete(m, op.W)
			return encReg(m), true
		}
	case "list", "listmut":
		var l []string
		for _, x := range rec.List {
			_, v, _ := strings.Cut(x, "=")
			l = append(l, v)
		}
		sort.Strings(l)
		got := strings.Join(l, ",")
		return fmt.Sprintf("list=[%s]", got), func(st string) (string, bool) {
			m := decReg(st)
			return st, encReg(m) == got
		}
	}
	need := rec.Need
	used, _, _ := seen(rec)
	d := fmt.Sprintf("%s(%q) used %v err=%s %q", op.K, op.Word(), used, rec.ErrKind, rec.Err)
	if len(used) > len(need) {
		return d, nil
	}
	for i, u := range used {
		if !strings.HasPrefix(u, need[i]+"#") {
			return d, nil
		}
	}
	missing := ""
	switch rec.ErrKind {
	case "":
		if len(used) != len(need) {
			return d, nil
		}
	case "notimported":
		if len(used) >= len(need) {
			return d, nil
		}
		missing = need[len(used)]
		if !strings.Contains(rec.Err, missing) || rec.Res != "" {
			return d, nil
		}
	default:
		return d, nil
	}
	return d, func(st string) (string, bool) {
		m := decReg(st)
		for i, u := range used {
			v, has := m[need[i]]
			if !has || fmt.Sprintf("%s#%d", need[i], v) != u {
				return "", false
			}
		}
		if missing != "" {
			if _, has := m[missing]; has {
				return "", false
			}
		}
		return st, true
	}
}

// ---- C04 ----

// Every task owns one registry, so the outcome of each of its operations is
// determined by its own history alone, however the tasks interleave.
func genC04(r *Rng, p *Plan) {
	nt := r.In(1, 3)
	p.Specs = append(p.Specs, genSpec(r, SpecOpt{Translits: c03Schemes[:r.In(1, 2)], Rules: 1}))
	if r.P(0.5) {
		p.Specs = append(p.Specs, genSpec(r, SpecOpt{Translits: []string{"s2"}, Rules: 1}))
	}
	own := make([]int, nt)
	for t := 0; t < nt; t++ {
		own[t] = t + 1
	}
	if r.P(0.5) {
		own[0] = 0
	}
	if r.P(0.4) {
		p.Setup = append(p.Setup, Op{K: "use", H: 0, T: &TPlan{Scheme: "s1", Ver: 90}})
	}
	for t := 0; t < nt; t++ {
		if own[t] > 0 && r.P(0.5) { // otherwise the task creates it
			p.Setup = append(p.Setup, Op{K: "new", H: own[t], S: r.N(len(p.Specs))})
		}
	}
	ver := 1
	var used []*TPlan
	for t := 0; t < nt; t++ {
		h := own[t]
		var ops []Op
		made := h == 0
		for _, o := range p.Setup {
			made = made || (o.K == "new" && o.H == h)
		}
		if !made {
			ops = append(ops, Op{K: "new", H: h, S: r.N(len(p.Specs))})
		}
		for i, n := 0, r.In(3, 12); i < n; i++ {
			s := pick(r, c03Schemes)
			ver++
			switch k := r.N(16); {
			case k < 5:
				tp := &TPlan{Scheme: s, Ver: ver, Val: r.P(0.15)}
				if len(used) > 0 && r.P(0.2) {
					c := *pick(r, used)
					tp = &c
				}
				used = append(used, tp)
				ops = append(ops, Op{K: "use", H: h, T: tp})
			case k < 7:
				ops = append(ops, Op{K: "unuse", H: h, W: s})
			case k < 9:
				ops = append(ops, Op{K: "list", H: h, Mode: "keep"})
			case k < 11:
				ops = append(ops, Op{K: "relist", H: h})
			case k < 13:
				ops = append(ops, Op{K: "listmut", H: h})
			case k < 15 && h > 0:
				ops = append(ops, Op{K: "hh", H: h, W: genSmallWord(r)})
			default:
				if h > 0 && r.P(0.5) {
					ops = append(ops, Op{K: "new", H: h, S: r.N(len(p.Specs))})
				} else {
					ops = append(ops, Op{K: "list", H: h})
				}
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Cfg = randSched(r, 5_000)
}

func execC04(p *Plan) *Report {
	rep := &Report{}
	s := newSt(p, rep)
	res := s.runTasks(p.Cfg, p.Tasks)
	rep.Dec = res.Decisions
	ok := rep.world(res)
	l := s.all()
	for _, rec := range l {
		rep.obs(rec.Out() + strings.Join(rec.Calls, ";"))
		rep.Calls++
	}
	if res.Switches > 2 {
		rep.class("interleaved")
	}
	if !ok {
		return rep
	}
	model := map[int]map[string]int{}
	reg := func(h int) map[string]int {
		if model[h] == nil {
			model[h] = map[string]int{}
		}
		return model[h]
	}
	for _, op := range p.Setup {
		switch op.K {
		case "use":
			if _, dup := reg(op.H)[op.T.Scheme]; !dup {
				reg(op.H)[op.T.Scheme] = op.T.Ver
			}
		case "new":
			model[op.H] = map[string]int{}
		}
	}
	for _, recs := range s.recs {
		kept := ""
		for _, rec := range recs {
			if rec.Panic != "" {
				rep.fail("panic", rec.Op.K+" panicked: "+rec.Panic)
				return rep
			}
			op := rec.Op
			if !rec.Done { // no such Hangulizer: its spec did not parse
				continue
			}
			switch op.K {
			case "new":
				if !rec.Bool {
					rep.fail("new-not-empty", "a new Hangulizer does not start with an empty registry and the given spec")
					return rep
				}
				model[op.H] = map[string]int{}
			case "relist":
				got := strings.Join(versOf(rec.List), ",")
				rep.class("kept-listing")
				if got != kept {
					rep.fail("listing-changed", fmt.Sprintf("task %d op %d: an earlier listing changed from [%s] to [%s]", rec.Task, rec.Idx, kept, got))
					return rep
				}
			default:
				d, f := regStep(s, rec)
				before := encReg(reg(op.H))
				if f == nil {
					rep.fail("malformed", fmt.Sprintf("task %d %s: %s", rec.Task, d, rec.Out()))
					return rep
				}
				after, good := f(before)
				if !good {
					rep.fail("leaked", fmt.Sprintf("task %d op %d: %s although the registry held [%s]; only this task used it", rec.Task, rec.Idx, d, before))
					return rep
				}
				model[op.H] = decReg(after)
				if op.K == "list" && op.Mode == "keep" {
					kept = strings.Join(versOf(rec.List), ",")
				}
				if op.K == "listmut" {
					rep.class("changed-listing")
				}
			}
		}
	}
	return rep
}

func versOf(l []string) (o []string) {
	for _, x := range l {
		_, v, _ := strings.Cut(x, "=")
		o = append(o, v)
	}
	sort.Strings(o)
	return
}
