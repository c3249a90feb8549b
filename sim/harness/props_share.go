//go:build go1.23

package main

import (
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hre"
	"github.com/hangulize/hangulize/pkg/hsl"
)

func init() {
	props["C21"] = &Prop{genC21, execC21}
	props["C24"] = &Prop{genC24, execC24}

	// many calls a standard translit with many different words, and the first
	// ones again at the end.
	extraOps["trmany"] = func(s *St, rec *Rec, set func(string, error)) {
		t := stdTranslit(rec.Op.W)
		if t == nil {
			return
		}
		first := make([]string, len(rec.Op.A))
		for i := 0; i < rec.Op.N+len(rec.Op.A); i++ {
			k := i % len(rec.Op.A)
			w := rec.Op.A[k]
			filler := i >= len(rec.Op.A) && i < rec.Op.N && rec.Op.Mode == ""
			if filler {
				w = fmt.Sprintf("%s%d", w, i)
			}
			res, err := t.Transliterate(w)
			if filler {
				continue
			}
			out := fmt.Sprintf("%q %v", res, err)
			if first[k] == "" {
				first[k] = out
			} else if first[k] != out {
				set(fmt.Sprintf("%s of %q gives %s after %d calls, first it gave %s", rec.Op.W, w, out, i, first[k]), nil)
				return
			}
		}
		set(strings.Join(first, " "), nil)
	}
	extraOps["patset"] = func(s *St, rec *Rec, set func(string, error)) {
		op := rec.Op
		m, v := s.tab(op.S, "shared", rec.Task)
		p, err := hre.NewPattern(op.A[0], m, v)
		sh := &shared(s).pats[op.H]
		sh.p, sh.r = p, hre.NewRPattern(op.A[1], m, v)
		set("", err)
	}
	extraOps["patuse"] = func(s *St, rec *Rec, set func(string, error)) {
		op := rec.Op
		sh := &shared(s).pats[op.H]
		set(usePat(sh.p, sh.r, op.Mode, op.Word(), op.N), nil)
	}
	// pat compiles patterns one after the other and uses all of them, the
	// earlier ones again after the later ones.
	extraOps["pat"] = func(s *St, rec *Rec, set func(string, error)) {
		op := rec.Op
		var sb strings.Builder
		var ps []*hre.Pattern
		var rs []*hre.RPattern
		for i := range op.Ops {
			o := &op.Ops[i]
			m, v := s.tab(o.S, op.Mode, rec.Task)
			p, err := hre.NewPattern(o.A[0], m, v)
			if err != nil {
				fmt.Fprintf(&sb, "%v\n", err)
				p = nil
			}
			r := hre.NewRPattern(o.A[1], m, v)
			ps, rs = append(ps, p), append(rs, r)
			fmt.Fprintf(&sb, "%s\x1e", usePat(p, r, "all", op.Word(), -1))
		}
		for i := range ps {
			fmt.Fprintf(&sb, "%s\x1e", usePat(ps[i], rs[i], "all", op.Word(), -1))
		}
		set(sb.String(), nil)
	}
	extraOps["ruleuse"] = func(s *St, rec *Rec, set func(string, error)) {
		op := rec.Op
		h := s.h(op.H)
		if h == nil {
			return
		}
		sp := h.Spec()
		rs := slices.Concat(sp.Rewrite, sp.Transcribe)
		if len(rs) == 0 {
			return
		}
		w := op.Word()
		var sb strings.Builder
		for i := 0; i < 4; i++ {
			r := rs[(op.N+i*7)%len(rs)]
			out := protect(func() string { return r.Replace(w) })
			fmt.Fprintf(&sb, "%s: %s | %s\n", r.String(), out, usePat(r.From, r.To, "replace", w, -1))
		}
		set(sb.String(), nil)
	}
	extraOps["specuse"] = func(s *St, rec *Rec, set func(string, error)) {
		h := s.h(rec.Op.H)
		if h == nil {
			return
		}
		sp := h.Spec()
		set(fmt.Sprintf("%s %#v %s %x", sp.String(), sp, sp.Lang, fnvs(specFP(sp))), nil)
	}
	extraOps["docset"] = func(s *St, rec *Rec, set func(string, error)) {
		d, err := hsl.Parse(s.reader(rec.Op, rec))
		shared(s).docs[rec.Op.H] = d
		set("", err)
	}
	extraOps["docuse"] = func(s *St, rec *Rec, set func(string, error)) {
		set(useDoc(shared(s).docs[rec.Op.H], rec.Op.N), nil)
	}
}

// PTab is a set of macros and variables.
type PTab struct {
	M map[string]string   `json:"m,omitempty"`
	V map[string][]string `json:"v,omitempty"`
}

type sharedVals struct {
	pats [8]struct {
		p *hre.Pattern
		r *hre.RPattern
	}
	docs [8]hsl.HSL
	m    [64]map[string]string
	v    [64]map[string][]string
}

func shared(s *St) *sharedVals {
	if s.shared == nil {
		s.shared = new(sharedVals)
	}
	return s.shared
}

// tab returns macros and variables: the shared maps, copies, or the task's own
// maps filled anew.
func (s *St) tab(i int, mode string, task int) (map[string]string, map[string][]string) {
	if i >= len(s.p.Tabs) {
		return nil, nil
	}
	t := s.p.Tabs[i]
	switch mode {
	case "copy":
		return maps.Clone(t.M), maps.Clone(t.V)
	case "reuse":
		sh := shared(s)
		if sh.m[task] == nil {
			sh.m[task], sh.v[task] = map[string]string{}, map[string][]string{}
		}
		clear(sh.m[task])
		clear(sh.v[task])
		for k, x := range t.M {
			sh.m[task][k] = x
		}
		for k, x := range t.V {
			sh.v[task][k] = slices.Clone(x)
		}
		return sh.m[task], sh.v[task]
	}
	return t.M, t.V
}

func protect(f func() string) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic %v", e)
		}
	}()
	return f()
}

func scribble(l []rune) string {
	out := string(l)
	for i := range l {
		l[i] = '!' // the listing belongs to the caller
	}
	return out
}

func usePat(p *hre.Pattern, r *hre.RPattern, mode, word string, n int) string {
	if p == nil {
		return "nil"
	}
	return protect(func() string {
		switch mode {
		case "find":
			return fmt.Sprint(p.Find(word, n))
		case "replace":
			return fmt.Sprintf("%q", p.Replace(word, r, n))
		case "letters":
			return fmt.Sprintf("%q %q", scribble(p.Letters()), scribble(r.Letters()))
		case "explain":
			a, b := p.NegativeLookaroundWidths()
			return fmt.Sprint(p.Explain(), a, b, p, r)
		}
		var l []string
		for _, k := range []string{"find", "replace", "letters", "explain"} {
			l = append(l, usePat(p, r, k, word, n))
		}
		return strings.Join(l, " ")
	})
}

// useDoc reads a document in every way, starting at method n.
func useDoc(d hsl.HSL, n int) string {
	var keys []string
	for k := range d {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := make([]string, 0, 8)
	for i := 0; i < 4; i++ {
		var sb strings.Builder
		for _, k := range keys {
			sec := d[k]
			fmt.Fprintf(&sb, "[%s@%d", k, sec.Line())
			ds, _ := sec.(*hsl.DictSection)
			ps := slices.Clone(sec.Pairs())
			if ds != nil {
				sort.Slice(ps, func(i, j int) bool { return ps[i].Left() < ps[j].Left() })
			}
			switch (i + n) % 4 {
			case 0:
				for _, p := range ps {
					fmt.Fprintf(&sb, " %d %s %q %q", p.Line(), p, p.Left(), p.Right())
				}
			case 1:
				if ds != nil {
					m := ds.Map()
					fmt.Fprint(&sb, m)
					clear(m)
					m["junk"] = []string{"junk"}
				}
			case 2:
				if ds != nil {
					m, err := ds.Injective()
					fmt.Fprint(&sb, m, err)
					if m != nil {
						clear(m)
						m["junk"] = "junk"
					}
				}
			case 3:
				if ds != nil {
					for _, p := range ps {
						fmt.Fprintf(&sb, " %q %q", ds.One(p.Left()), ds.All(p.Left()))
					}
					fmt.Fprintf(&sb, " %q %q", ds.One("no such"), ds.All("no such"))
				}
			}
			sb.WriteString("]")
		}
		out = append(out, fmt.Sprintf("%d:%s", (i+n)%4, sb.String()))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// ---- C21 ----

func genC21(r *Rng, p *Plan) {
	schemes := append([]string(nil), stdSchemes...)
	if r.P(0.5) { // mostly one translit
		s := pick(r, stdSchemes)
		schemes = []string{s, s, s, pick(r, stdSchemes)}
	}
	if r.P(0.35) {
		schemes = []string{"furigana"}
	}
	var pool []Op
	for i := 0; i < 5; i++ {
		s := pick(r, schemes)
		pool = append(pool, Op{K: "tr", W: s, A: []string{trWord(r, s)}})
	}
	lang := map[string]string{"furigana": "jpn", "pinyin": "chi", "cyrillic[bg]": "bul", "cyrillic[mk]": "mkd", "cyrillic[ru]": "rus", "cyrillic[ua]": "ukr"}
	var ls []string
	if r.P(0.4) {
		p.Setup = append(p.Setup, Op{K: "install"})
		l := lang[schemes[0]]
		ls = append(ls, l)
		if r.P(0.5) {
			p.Setup = append(p.Setup, Op{K: "new", H: 1, Lang: l}, Op{K: "install", H: 1})
		}
	}
	for t, nt := 0, r.In(2, 4); t < nt; t++ {
		var ops []Op
		for i, n := 0, r.In(1, 5); i < n; i++ {
			switch k := r.N(12); {
			case k < 8 || (len(ls) == 0 && k < 11):
				o := pick(r, pool)
				if r.P(0.3) {
					o = Op{K: "tr", W: o.W, A: []string{trWord(r, o.W)}}
				}
				ops = append(ops, o)
			case k < 10:
				ops = append(ops, Op{K: "hz", Lang: ls[0], W: genWord(r, ls[0])})
			case k < 11:
				if len(p.Setup) > 1 {
					ops = append(ops, Op{K: "hh", H: 1, W: genWord(r, ls[0])})
				}
			default:
				o := Op{K: "trmany", W: pick(r, schemes), N: []int{8, 40, 150}[r.N(3)]}
				for j, m := 0, r.In(1, 3); j < m; j++ {
					o.A = append(o.A, trWord(r, o.W))
				}
				ops = append(ops, o)
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Cfg = randSched(r, 20_000)
	if r.P(0.15) {
		p.Pool = 1 + []int{1000, 50_000, 500_000}[r.N(3)]
		o := Op{K: "trmany", W: "furigana", N: []int{100, 400, 1500}[r.N(3)], Mode: "same"}
		for j, m := 0, r.In(1, 6); j < m; j++ {
			o.A = append(o.A, trWord(r, o.W))
		}
		p.Tasks[0] = append(p.Tasks[0], o)
	}
}

// execC21 also lets the tokenizer's pool of lattice nodes hand out other nodes
// than the last ones, as it does when goroutines move between processors. What
// goes wrong only then has a signature of its own.
func execC21(p *Plan) *Report {
	rep := execShared(p, true)
	if p.Pool > 0 {
		rep.class("pool")
		rep.fault("pool hands out other nodes", 1)
		if rep.Viol != "" {
			q := p.clone()
			q.Pool = 0
			if again := execShared(q, true); again.Viol == "" {
				rep.Sig = "tokenizer-pool"
			}
		}
	}
	return rep
}

func execShared(p *Plan, std bool) *Report {
	rep := &Report{}
	s := newSt(p, rep)
	res := s.runTasks(p.Cfg, p.Tasks)
	rep.Dec = res.Decisions
	l := s.all()
	ok := rep.world(res)
	for _, rec := range l {
		rep.obs(rec.Out())
		rep.Calls++
	}
	if overlapped(l) && res.Switches > 2 {
		rep.class("overlap")
	}
	if !ok {
		return rep
	}
	first := map[string]bool{}
	for _, rec := range l {
		op := rec.Op
		if !rec.Done && rec.Panic == "" {
			continue
		}
		want := soloCached(p, op, nil)
		if op.K == "pat" && len(op.Ops) > 1 { // every pattern alone
			var a, b strings.Builder
			for i := range op.Ops {
				o := *op
				o.Ops = op.Ops[i : i+1]
				x, y, ok := strings.Cut(soloCached(p, &o, nil).Res, "\x1e")
				if !ok {
					x = "?"
				}
				a.WriteString(x + "\x1e")
				b.WriteString(y)
			}
			w := *want
			w.Res = a.String() + b.String()
			want = &w
		}
		if rec.OutT() != want.OutT() {
			rep.fail("diff-"+op.K, fmt.Sprintf("task %d op %d %s(%s %q %q) gave %s, alone it gives %s", rec.Task, rec.Idx, op.K, op.Lang, op.Word(), op.A, rec.OutT(), want.OutT()))
			return rep
		}
		rep.class(op.K)
		if std && op.K == "tr" {
			rep.class(op.W)
			for _, o := range l {
				if o != rec && o.Task != rec.Task && o.Op.K == "tr" && o.Op.W == op.W && o.Inv < rec.Ret && rec.Inv < o.Ret {
					rep.class("overlap-" + op.W)
				}
			}
			if !first[op.W] {
				first[op.W] = true
			}
		}
	}
	return rep
}

// ---- C24 ----

type patSrc struct {
	from, to string
	words    []string
	tab      PTab
}

var patPool = sync.OnceValue(func() (l []patSrc) {
	for _, lang := range langs {
		sp, err := hangulize.ParseSpec(strings.NewReader(langSrc[lang]))
		if err != nil {
			continue
		}
		tab := PTab{sp.Macros, sp.Vars}
		for i, r := range slices.Concat(sp.Rewrite, sp.Transcribe) {
			e := r.From.String()
			if i%5 == 0 || strings.ContainsAny(e, "<@{~[") && i%2 == 0 || strings.Contains(r.To.String(), "<") {
				l = append(l, patSrc{e, r.To.String(), langWords[lang], tab})
			}
		}
	}
	return
})

var patExprs = []string{"<x>a", "a<x>", "@b", "{@}b", "b{@}", "{~@}c", "c{~@}", "^a", "a$", "^^a", "a$$", "<x><y>", "(a|b)<x>", "{~<x>}b", "{a|b}c{~d}", "a+", "[abc]", "{b}a", "@@", "<y>{~a}", "a{1,2}", "x", "<x", "(", "{~a+}b", "a.b", "b{~@|$}", "<z>", "a{~^}", "^{~a}b", "@x", "@a", "<x>b", "b<x>"}
var rpatExprs = []string{"<y>", "<x>", "b", "", "{}", "a-b", "<x><y>", "@", "<y><x>", "<z>", "1"}

func genTab(r *Rng) PTab {
	t := PTab{M: map[string]string{}, V: map[string][]string{}}
	t.M["@"] = r.Of("a|b", "<x>", "a", "b|c", "(a|c)", "[bc]")
	if r.P(0.4) {
		t.M["@@"] = r.Of("c", "<y>", "d|a", "ab")
	}
	for _, k := range []string{"x", "y", "z"} {
		if k == "z" && r.P(0.5) {
			continue
		}
		var vs []string
		for i, n := 0, r.In(1, 4); i < n; i++ {
			vs = append(vs, r.Of("a", "b", "c", "d", "aa", "ab", "ba", "."))
		}
		t.V[k] = vs
	}
	return t
}

func genC24(r *Rng, p *Plan) {
	type pr struct{ a, b string }
	var exprs []pr
	var word func() string
	if r.P(0.5) { // small tables over few letters
		for i, n := 0, r.In(2, 3); i < n; i++ {
			p.Tabs = append(p.Tabs, genTab(r))
		}
		for i := 0; i < 4; i++ {
			exprs = append(exprs, pr{pick(r, patExprs), pick(r, rpatExprs)})
		}
		word = func() string {
			var sb strings.Builder
			for i, n := 0, r.In(1, 12); i < n; i++ {
				sb.WriteString(r.Of("a", "b", "c", "d", "a", "b", ".", "x", " ", "\u200b"))
			}
			return sb.String()
		}
	} else { // rules of bundled specs under their own and other tables
		pool := patPool()
		var ws []string
		for i := 0; i < 3; i++ {
			x := pick(r, pool)
			p.Tabs = append(p.Tabs, x.tab)
			exprs = append(exprs, pr{x.from, x.to})
			ws = append(ws, x.words...)
		}
		word = func() string {
			if len(ws) == 0 {
				return "abc"
			}
			return strings.ToLower(pick(r, ws))
		}
	}
	// The same expressions with their macros expanded, and with other names.
	for i, n := 0, len(exprs); i < n; i++ {
		m := pick(r, p.Tabs).M
		var kv []string
		ks := slices.Sorted(maps.Keys(m))
		for j := len(ks) - 1; j >= 0; j-- {
			kv = append(kv, ks[j], m[ks[j]])
		}
		e := exprs[i]
		if r.P(0.3) {
			e.a = strings.NewReplacer("<x>", "<y>", "<y>", "<x>").Replace(e.a)
		} else {
			e.a = strings.NewReplacer(kv...).Replace(e.a)
		}
		if e.a != exprs[i].a && r.P(0.5) {
			exprs = append(exprs, e)
		}
	}
	nd := 0
	for i, n := 0, r.In(1, 3); i < n; i++ {
		e := pick(r, exprs)
		p.Setup = append(p.Setup, Op{K: "patset", H: i, S: r.N(len(p.Tabs)), A: []string{e.a, e.b}})
	}
	np := len(p.Setup)
	if r.P(0.6) {
		p.Specs = append(p.Specs, genSpec(r, SpecOpt{Overlap: r.P(0.3)}))
		if r.P(0.5) {
			p.Specs = append(p.Specs, tweakSpec(r, p.Specs[0]))
		}
		for i := range p.Specs {
			p.Setup = append(p.Setup, Op{K: "docset", H: i, S: i}, Op{K: "new", H: i + 1, S: i})
			nd++
		}
	}
	words := []string{word(), word(), word()}
	for t, nt := 0, r.In(2, 4); t < nt; t++ {
		var ops []Op
		for i, n := 0, r.In(1, 5); i < n; i++ {
			switch k := r.N(16); {
			case k < 6:
				ops = append(ops, Op{K: "patuse", H: r.N(np), W: pick(r, words), N: []int{-1, -1, 1, 2, 0}[r.N(5)], Mode: r.Of("find", "replace", "replace", "letters", "explain", "all")})
			case k < 10:
				o := Op{K: "pat", W: pick(r, words), Mode: r.Of("shared", "copy", "reuse")}
				e := pick(r, exprs)
				for j, m := 0, r.In(1, 4); j < m; j++ {
					if r.P(0.4) {
						e = pick(r, exprs)
					}
					o.Ops = append(o.Ops, Op{S: r.N(len(p.Tabs) + 1), A: []string{e.a, e.b}})
				}
				ops = append(ops, o)
			case nd == 0:
				ops = append(ops, Op{K: "patuse", H: r.N(np), W: word(), N: -1, Mode: "all"})
			case k < 12:
				ops = append(ops, Op{K: "docuse", H: r.N(nd), N: r.N(4)})
			case k < 13:
				ops = append(ops, Op{K: "hsl", S: r.N(nd)})
			case k < 15:
				ops = append(ops, Op{K: "ruleuse", H: 1 + r.N(nd), W: genSmallWord(r), N: r.N(50)})
			default:
				ops = append(ops, Op{K: "specuse", H: 1 + r.N(nd)})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Cfg = randSched(r, 10_000)
}

func execC24(p *Plan) *Report { return execShared(p, false) }
