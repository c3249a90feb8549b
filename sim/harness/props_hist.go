//go:build go1.23

package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/internal/verifsim/simrt"
)

func init() {
	props["C08"] = &Prop{genC08, execC08}
	props["C09"] = &Prop{genC09, execC09}
	props["C13"] = &Prop{genC13, execC13}
	// loop repeats operations; all rounds must do the same.
	extraOps["loop"] = func(s *St, rec *Rec, set func(string, error)) {
		var first []string
		for i := 0; i < rec.Op.N; i++ {
			for k := range rec.Op.Ops {
				op := rec.Op.Ops[k]
				op.Id = rec.Op.Id + "+"
				in := &Rec{Task: rec.Task, Idx: -1, Op: &op}
				outer := s.cur[rec.Task]
				func() {
					defer func() {
						if e := recover(); e != nil {
							in.Panic = fmt.Sprint(e)
						}
					}()
					s.cur[rec.Task] = in
					s.do(in)
				}()
				s.cur[rec.Task] = outer
				if i == 0 {
					first = append(first, in.OutT())
				} else if in.OutT() != first[k] {
					set(fmt.Sprintf("round %d of %s %s %q differs: %s, first: %s", i, op.K, op.Lang, op.Word(), in.OutT(), first[k]), nil)
					return
				}
			}
		}
		set(strings.Join(first, "\n"), nil)
	}
}

// ---- C08 ----

func genC08(r *Rng, p *Plan) {
	var ops []Op
	h := 1
	for i, n := 0, r.In(0, 3); i < n; i++ {
		src := genSpec(r, SpecOpt{Overlap: r.P(0.8), Rules: r.In(2, 6)})
		if r.P(0.15) {
			src = brokenSpec(r, src)
		}
		p.Specs = append(p.Specs, src)
		for j, k := 0, r.In(1, 4); j < k; j++ {
			w := genSmallWord(r)
			if r.P(0.1) {
				w = ""
				for n := longLen(r); n > 0; n -= 8 {
					w += genSmallWord(r)
				}
			}
			ops = append(ops, Op{K: "parsehz", S: i, W: w, Mode: "log"})
		}
		ops = append(ops, Op{K: "parse", S: i})
		ops = append(ops, Op{K: "hsl", S: i})
	}
	if r.P(0.5) {
		ops = append(ops, stdStubs(0, 1)...)
		for i, n := 0, r.In(1, 3); i < n; i++ {
			l := genLangs(r, 1)[0]
			ops = append(ops, Op{K: "load", Lang: l}, Op{K: "new", H: h, Lang: l})
			ops = append(ops, stdStubs(h, 1)...)
			ops = append(ops, Op{K: "trace", H: h, Mode: "log"}, Op{K: "hh", H: h, W: genWord(r, l)}, Op{K: "hz", Lang: l, W: genWord(r, l)})
			h++
		}
		ops = append(ops, Op{K: "langs"})
	}
	if r.P(0.5) || len(ops) == 0 {
		for i, n := 0, r.In(1, 6); i < n; i++ {
			ops = append(ops, trOp(r))
		}
	}
	p.Tasks = [][]Op{ops}
	p.Cfg = npCfg
	p.Alt = []simrt.Config{{Policy: "np", MapOrder: "reverse", Proc: genProc(r)}}
	for i := 0; i < 3; i++ {
		p.Alt = append(p.Alt, simrt.Config{Policy: "np", MapOrder: "shuffle", MapSeed: r.U(), Proc: genProc(r)})
	}
}

var cyrWords = []string{"Владивосто́к", "щука", "Ярославль", "їжак", "Ґедзь", "Киів", "Єва", "Ѓорѓи", "Љубљана", "Њ", "Џ", "Сърбия", "ъгъл", "Хрущёв", "съезд", "объект", "ЫЬЪ", "Жюль", "зг", "згода", "Юлія", "дз", "джаз", "кс", "ье", "ьо", "йо", "ЙО", "цц", "шщ", "Тс", "ѐѝ", "abc", ""}
var cyrLatin = strings.Fields("ZH zh TS ts CH ch SH sh SHT sht YU yu YA ya Zh Ts Ch Sh Sht Yu Ya Lj lj Nj nj Dž dž Dz dz Ž ž Č č Š š Ǵ ǵ Ḱ ḱ YO yo CZ cz SHH shh '' Y' y' E' e' CK ck JA Ja ja JE je JI ji JO jo JU ju PH ph TH th WH wh YE ye YI yi iy ij Šč šč Ï ï Ă ă a b c d e h i k l m n o p r s t u v y z j w x ' e0")

// cyrLatinWord is a word in Latin letters for the Cyrillic translits. Many of
// their sources are prefixes of others.
func cyrLatinWord(r *Rng) string {
	var sb strings.Builder
	for i, n := 0, r.In(1, 8); i < n; i++ {
		sb.WriteString(pick(r, cyrLatin))
	}
	return sb.String()
}

var hanWords = []string{"北京", "上海", "重庆", "行", "长", "的", "北京abc", "!北 京?", "中华人民共和国", "女", "绿", "你好，世界", "a", ""}
var kanaWords = []string{"東京", "自由ヶ丘", "はし", "橋", "今日は", "コーヒー", "日本語", "ゔぁいおりん", "私は", "東京abc", "12月", "明日", "パーティー", "々", "a", ""}

// trOp calls a standard translit directly.
func trOp(r *Rng) Op {
	s := pick(r, stdSchemes)
	if s == "furigana" && r.P(0.5) {
		s = pick(r, stdSchemes)
	}
	return Op{K: "tr", W: s, A: []string{trWord(r, s)}}
}

func trWord(r *Rng, s string) string {
	ws := cyrWords
	switch s {
	case "furigana":
		ws = append(append([]string(nil), kanaWords...), langWords["jpn"]...)
	case "pinyin":
		ws = append(append([]string(nil), hanWords...), langWords["chi"]...)
	default:
		for _, l := range []string{"bul", "rus", "ukr", "mkd"} {
			ws = append(ws[:len(ws):len(ws)], langWords[l]...)
		}
	}
	w := pick(r, ws)
	if strings.HasPrefix(s, "cyr") && r.P(0.6) {
		w = cyrLatinWord(r)
	}
	if r.P(0.4) {
		w += r.Of("", " ", "-", "\n") + pick(r, ws)
	}
	if r.P(0.2) {
		rs := []rune(w)
		if len(rs) > 1 {
			i := r.N(len(rs))
			rs = slices.Delete(rs, i, i+1)
		}
		w = string(rs)
	}
	return w
}

// brokenSpec gives a spec errors, possibly several, so that which one is
// reported may depend on an order.
func brokenSpec(r *Rng, src string) string {
	bad := []string{
		"\nmacros:\n    \"q\" = \"1\", \"2\"\n    \"w\" = \"3\", \"4\"\n    \"x\" =\n",
		"\nvars:\n    \"q\" =\n    \"w\" =\n",
		"\nnormalize:\n    \"qq\" =\n    \"ww\" =\n",
		"\nrewrite:\n    \"(\" -> \"a\"\n    \"[\" -> \"b\"\n",
		"\nrewrite:\n    \"<nosuch>\" -> \"a\"\n    \"<other>\" -> \"b\"\n",
		"\ntranscribe:\n    \"a\" -> \"<nosuch>\"\n    \"{\" -> \"ㄱ\"\n",
		"\ntest:\n    \"a\" = \"b\"\n    \"c\" = \"d\"\n",
		"\nlang:\n    codes = \"a\"\n",
		"\nlang:\n    foo = \"1\"\n    bar = \"2\"\n    _x =\n    Id = \"y\"\n",
		"\nconfig:\n    foo = \"1\"\n    bar = \"2\"\n    author = \"3\"\n",
		"\nfoo:\n    a = \"1\"\nbar:\n    b = \"2\"\nzoo:\n    \"c\" -> \"3\"\n",
		"\nvars:\n    \"f1\" = \"<f2>\"\n    \"f2\" = \"<f1>\", \"x\"\n    \"f3\" = \"<f1>y\"\n",
		"\nmacros:\n    \"1\" = \"2\"\n    \"2\" = \"1\"\n    \"12\" = \"21\"\n",
		"\nnormalize:\n    \"q\" = \"w\", \"x\"\n    \"z\" = \"w\", \"x\"\n",
	}
	for i, n := 0, r.In(1, 2); i < n; i++ {
		b := pick(r, bad)
		if sec := b[1:strings.IndexByte(b, ':')]; strings.Contains("\n"+src, "\n"+sec+":\n") && (sec == "lang" || r.P(0.7)) {
			src = strings.Replace("\n"+src, "\n"+sec+":\n", b, 1)[1:]
		} else {
			src += b
		}
	}
	return src
}

func (r *Rec) full() string {
	s := r.OutT()
	if r.Spec != nil {
		s += " spec=" + specFP(r.Spec)
	}
	return s
}

// genProc is another process on another machine.
func genProc(r *Rng) *simrt.Proc {
	return &simrt.Proc{CPUs: r.Pick(1, 2, 3, 5, 7, 8, 16, 64), Pid: r.In(1, 1<<22), Host: r.Of("sim", "a", "other-host"),
		Env: r.Of("", "", "1", "0", "C", "C.UTF-8", "ko_KR.UTF-8", "tr_TR.UTF-8", "lt_LT.UTF-8", "de_DE.ISO-8859-1", "ja_JP.SJIS", "off", "true", "/tmp", "a=1", "Asia/Seoul"), Sec: int64(r.In(-1<<30, 1<<30)), Rand: r.U()}
}

func execC08(p *Plan) *Report {
	rep := &Report{}
	var ref []string
	var refOps []*Op
	for i, cfg := range append([]simrt.Config{p.Cfg}, p.Alt...) {
		q := p.clone()
		q.Cfg = cfg
		s := newSt(q, rep)
		cfg.MaxSteps = 250_000_000
		res := s.runTasks(cfg, q.Tasks)
		if !rep.world(res) {
			return rep
		}
		for k, rec := range s.recs[0] {
			out := rec.full()
			if i == 0 {
				rep.obs(out)
				rep.Calls++
				ref = append(ref, out)
				refOps = append(refOps, rec.Op)
				if rec.ErrKind == "other" {
					rep.class("parse-error")
				}
				switch rec.Op.K {
				case "tr":
					rep.class("std-translit")
				case "parse", "parsehz":
					rep.class("generated-spec")
				case "hh", "hz":
					rep.class("bundled-spec")
				}
				continue
			}
			if out != ref[k] {
				op := refOps[k]
				rep.fail("order-"+op.K, fmt.Sprintf("op %d %s(%s %q %v) depends on the order of map iteration or on the process.\nsorted order: %s\n%s order, process %+v: %s", k, op.K, op.Lang, op.W, op.A, ref[k], cfg.MapOrder, cfg.Proc, out))
				return rep
			}
		}
		rep.fault("map order "+cfg.MapOrder, 1)
		if cfg.Proc != nil {
			rep.fault("process started with another time, environment, processor count and random seed", 1)
		}
	}
	return rep
}

// ---- C09 ----

func genC09(r *Rng, p *Plan) {
	light := r.P(0.65) // no bundled language, many variants of few specs
	var ls []string
	if !light {
		ls = genLangs(r, r.In(1, 3))
	}
	for i, n := 0, r.In(1, 5); i < n; i++ {
		switch {
		case i > 0 && r.P(0.75):
			p.Specs = append(p.Specs, tweakSpec(r, p.Specs[r.N(i)]))
		case r.P(0.15):
			p.Specs = append(p.Specs, brokenSpec(r, genSpec(r, SpecOpt{})))
		default:
			p.Specs = append(p.Specs, genSpec(r, SpecOpt{Overlap: r.P(0.4), Translits: []string{"s1", "s2"}[:r.N(3)]}))
		}
	}
	var words []string
	for i := 0; i < 4; i++ {
		words = append(words, genSmallWord(r))
	}
	lw := map[string][]string{}
	for _, l := range ls {
		for i := 0; i < 3; i++ {
			lw[l] = append(lw[l], genWord(r, l))
		}
	}
	word := func() string { return pick(r, words) }
	call := func() Op {
		k := r.N(8)
		if light && (k < 2 || k > 6) {
			k = r.In(2, 6)
		}
		switch k {
		case 0, 1:
			l := pick(r, ls)
			return Op{K: "hz", Lang: l, W: pick(r, lw[l])}
		case 2, 3, 4:
			return Op{K: "hh", H: r.In(1, 3), W: word()}
		case 5:
			return Op{K: "parsehz", S: r.N(len(p.Specs)), W: word(), Mode: "log"}
		case 6:
			return Op{K: r.Of("parse", "hsl"), S: r.N(len(p.Specs))}
		}
		return trOp(r)
	}
	var ops []Op
	if r.P(0.5) {
		ops = append(ops, stdStubs(0, 1)...)
	}
	made := 0
	n := r.In(8, 40)
	for i := 0; i < n; i++ {
		l := pick(r, unknownLangs)
		if !light {
			l = pick(r, ls)
		}
		k := r.N(30)
		if light && (k >= 15 && k < 19) {
			k = r.N(15)
		}
		switch {
		case k < 4 || made == 0:
			o := Op{K: "new", H: r.In(1, 3), S: r.N(len(p.Specs))}
			if r.P(0.3) && !light {
				o.Lang = l
			}
			ops = append(ops, o)
			made++
			if r.P(0.7) {
				for v, s := range []string{"s1", "s2"} {
					ops = append(ops, Op{K: "use", H: o.H, T: &TPlan{Scheme: s, Ver: v + 1, Mode: r.Of("", "", "", "err", "panic", "upper")}})
				}
			}
		case k < 15:
			ops = append(ops, call())
		case k < 17:
			ops = append(ops, Op{K: "load", Lang: l})
		case k < 19:
			ops = append(ops, Op{K: "unload", Lang: l})
		case k < 22:
			tp := &TPlan{Scheme: r.Of("s1", "s2", "furigana"), Ver: r.In(3, 9), Mode: r.Of("", "err", "panic", "upper")}
			ops = append(ops, Op{K: "use", H: r.N(4), T: tp})
		case k < 24:
			ops = append(ops, Op{K: "unuse", H: r.N(4), W: r.Of("s1", "s2", "furigana")})
		case k < 25:
			ops = append(ops, Op{K: "hz", Lang: pick(r, unknownLangs), W: word()})
		case k < 26:
			ops = append(ops, Op{K: "trace", H: r.In(1, 3), Mode: r.Of("log", "off", "panic"), N: r.In(1, 5)})
		case k < 28:
			o := Op{K: "loop", N: []int{3, 10, 40, 3, 10, 150, 300}[r.N(7)], Ops: []Op{call(), call()}}
			if light && r.P(0.01) {
				// More than a 16-bit counter holds.
				o.N, o.Ops = 66_000, []Op{{K: "hh", H: r.In(1, 3), W: lit(r, 1)}}
			}
			ops = append(ops, o)
		case k < 29:
			ops = append(ops, Op{K: "parse", S: r.N(len(p.Specs)), R: &RPlan{ErrAt: r.In(1, 200), ErrKind: "io"}})
		default:
			ops = append(ops, Op{K: "langs"})
		}
	}
	for i := 0; i < 4; i++ {
		ops = append(ops, call())
	}
	p.Tasks = [][]Op{ops}
	p.Cfg = npCfg
	p.Cfg.MapOrder = r.Of("sorted", "reverse", "shuffle")
	p.Cfg.MapSeed = r.U()
}

func execC09(p *Plan) *Report {
	rep := &Report{}
	s := newSt(p, rep)
	res := s.runTasks(p.Cfg, p.Tasks)
	rep.Dec = res.Decisions
	ok := rep.world(res)
	l := append([]*Rec(nil), s.all()...)
	for _, rec := range l {
		rep.obs(rec.OutT())
		rep.Calls++
	}
	if !ok {
		return rep
	}
	// What a call may depend on: its spec, the registry and the trace callback.
	made := map[int]Op{}
	trace := map[int]*Op{}
	reg := map[int]map[string]Op{0: {}}
	setup := func(h int) (l []Op) {
		if o, ok := made[h]; ok {
			l = append(l, o)
		}
		var ks []string
		for k := range reg[h] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			l = append(l, reg[h][k])
		}
		if t := trace[h]; t != nil {
			l = append(l, *t)
		}
		return
	}
	seenKey := map[string]bool{}
	for _, rec := range l {
		op := rec.Op
		if !rec.Done && rec.Panic == "" {
			continue
		}
		switch op.K {
		case "new":
			if rec.Err == "" && rec.Bool {
				made[op.H] = *op
				reg[op.H] = map[string]Op{}
				delete(trace, op.H)
			}
			continue
		case "use":
			_, dup := reg[op.H][op.T.Scheme]
			if rec.Bool == dup {
				rep.fail("use", fmt.Sprintf("op %d: registering %s returned %v", rec.Idx, op.T.Scheme, rec.Bool))
				return rep
			}
			if !dup {
				reg[op.H][op.T.Scheme] = *op
			}
			continue
		case "unuse":
			_, has := reg[op.H][op.W]
			if rec.Bool != has {
				rep.fail("unuse", fmt.Sprintf("op %d: removing %s returned %v", rec.Idx, op.W, rec.Bool))
				return rep
			}
			delete(reg[op.H], op.W)
			continue
		case "trace":
			if _, ok := made[op.H]; ok {
				o := *op
				trace[op.H] = &o
			}
			continue
		case "load":
			if rec.Spec == nil || rec.ErrKind != "" {
				rep.fail("load", fmt.Sprintf("op %d: loading %q failed: %s", rec.Idx, op.Lang, rec.Out()))
			} else if specFP(rec.Spec) != refFP(op.Lang) {
				rep.fail("load-differs", fmt.Sprintf("op %d: the spec of %q differs from the one in a new process", rec.Idx, op.Lang))
			}
			continue
		case "unload":
			continue
		}
		var pre []Op
		hs := []int{op.H}
		for _, o := range op.Ops {
			hs = append(hs, o.H)
		}
		sort.Ints(hs)
		hs = slices.Compact(hs)
		for _, h := range hs {
			pre = append(pre, setup(h)...)
		}
		for i := range pre {
			pre[i].Id = ""
		}
		q := &Plan{Specs: p.Specs}
		o := *op
		if o.K == "loop" {
			o.N = 1
		}
		o.Id = ""
		want := soloCached(q, &o, pre)
		if want.full() != rec.full() {
			rep.fail("diff-"+op.K, fmt.Sprintf("op %d %s(%s %q): %s\nafter this history; in a new process with the same translits: %s", rec.Idx, op.K, op.Lang, op.Word(), rec.full(), want.full()))
			return rep
		}
		k := op.K + op.Lang + op.W + fmt.Sprint(op.H, op.S)
		if seenKey[k] {
			rep.class("repeated")
		}
		seenKey[k] = true
		switch {
		case rec.Panic != "":
			rep.class("panicked")
			rep.fault("callback panic", 1)
		case rec.ErrKind != "":
			rep.class("failed")
			rep.fault("failed call", 1)
		case op.K == "loop":
			rep.class("loop")
		}
	}
	if len(l) > 10 {
		rep.class("long-history")
	}
	return rep
}

// ---- C13 ----

// resultOf gives a word's result if its language needs no transliteration.
func resultOf(lang, src, word string) string {
	if lang != "" {
		src = langSrc[lang]
	}
	if strings.Contains(src, "translit") {
		return ""
	}
	res, _ := expectWord("", src, word)
	return res
}

func genC13(r *Rng, p *Plan) {
	for i, n := 0, r.In(1, 2); i < n; i++ {
		if i > 0 && r.P(0.5) {
			p.Specs = append(p.Specs, tweakSpec(r, p.Specs[0]))
		} else {
			o := SpecOpt{Translits: []string{"s1", "s2"}[:r.N(3)], Rules: r.In(2, 6)}
			if r.P(0.06) {
				o.Pad = r.Pick(30, 62, 126, 254, 400)
			}
			p.Specs = append(p.Specs, genSpec(r, o))
		}
	}
	lang := genLangs(r, 1)[0]
	if r.P(0.05) {
		for _, l := range langs { // the language with the most rules
			if langSize[l] > langSize[lang] {
				lang = l
			}
		}
	}
	nt := r.In(1, 4)
	// 10, 11: shared Hangulizers, traced for the whole run; 1+task: the task's
	// own; 12: shared, its callback keeps changing.
	slots := map[int]string{}
	specOf := map[int]string{}
	mk := func(h int) {
		o := Op{K: "new", H: h, S: r.N(len(p.Specs))}
		if r.P(0.25) {
			o.Lang = lang
		}
		slots[h] = o.Lang
		specOf[h] = p.Specs[o.S]
		p.Setup = append(p.Setup, o)
		if o.Lang != "" {
			p.Setup = append(p.Setup, stdStubs(h, 1)...)
		} else {
			for i, s := range []string{"s1", "s2"} {
				if r.P(0.9) {
					p.Setup = append(p.Setup, Op{K: "use", H: h, T: &TPlan{Scheme: s, Ver: i + 1, Yields: r.N(2), Mode: r.Of("", "", "upper", "id", "err")}})
				}
			}
		}
	}
	for _, h := range []int{10, 11} {
		mk(h)
		p.Setup = append(p.Setup, Op{K: "trace", H: h, Mode: "log"})
	}
	mk(12)
	for t := 0; t < nt; t++ {
		mk(t + 1)
		if r.P(0.6) {
			p.Setup = append(p.Setup, Op{K: "trace", H: t + 1, Mode: "log"})
		}
	}
	prev := map[int]string{}
	fresh := func(h int) string {
		if slots[h] != "" {
			return genWord(r, lang)
		}
		if r.P(0.3) {
			return genSmallWord(r) + r.Of(" ", ", ", "!", " 1 ") + genSmallWord(r)
		}
		return genSmallWord(r)
	}
	// A word may be the one before it, its result, or one that no rule changes.
	word := func(h int) string {
		w := ""
		if last := prev[h]; last != "" && r.P(0.3) {
			w = last
			if r.P(0.6) {
				if res := resultOf(slots[h], specOf[h], last); res != "" {
					w = res
				}
			}
		} else if r.P(0.04) {
			w = r.Of("가", "한글 두", "1", " ", "가1", "1가")
		} else {
			w = fresh(h)
		}
		prev[h] = w
		return w
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, r.In(1, 5); i < n; i++ {
			switch k := r.N(12); {
			case k < 5:
				h := r.In(10, 11)
				ops = append(ops, Op{K: "hh", H: h, W: word(h)})
			case k < 8:
				ops = append(ops, Op{K: "hh", H: t + 1, W: word(t + 1)})
			case k < 9:
				ops = append(ops, Op{K: "trace", H: t + 1, Mode: r.Of("log", "off")})
			case k < 11:
				ops = append(ops, Op{K: "hh", H: 12, W: word(12)})
			default:
				ops = append(ops, Op{K: "trace", H: 12, Mode: r.Of("log", "off")})
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	p.Cfg = randSched(r, 10_000)
}

var stepOrder = map[string]int{"Input": 1, "Transliterate": 2, "Normalize": 3, "Rewrite": 4, "Transcribe": 5, "Syllabify": 6, "Localize": 7}

func execC13(p *Plan) *Report {
	rep := &Report{}
	s := newSt(p, rep)
	res := s.runTasks(p.Cfg, p.Tasks)
	rep.Dec = res.Decisions
	ok := rep.world(res)
	l := append([]*Rec(nil), s.all()...)
	hs := s.hs
	for _, rec := range l {
		rep.obs(rec.OutT())
		rep.Calls++
	}
	if !ok {
		return rep
	}
	if overlapped(l) && res.Switches > 2 {
		rep.class("overlap")
	}
	on := map[int]bool{}
	for _, o := range p.Setup {
		if o.K == "trace" {
			on[o.H] = o.Mode != "off"
		}
	}
	for _, rec := range l {
		op := rec.Op
		if op.K == "trace" {
			on[op.H] = op.Mode != "off"
			rep.class("callback-changed")
			continue
		}
		if op.K != "hh" || !rec.Done {
			if rec.Panic != "" {
				rep.fail("panic", op.K+" panicked: "+rec.Panic)
				return rep
			}
			continue
		}
		var extra, plain []Op
		for _, o := range p.Setup {
			if o.H == op.H && o.K != "trace" {
				plain = append(plain, o)
			}
		}
		mode := "off"
		if on[op.H] {
			mode = "log"
		}
		extra = append(plain[:len(plain):len(plain)], Op{K: "trace", H: op.H, Mode: mode})
		o := *op
		o.Id = ""
		d := fmt.Sprintf("task %d op %d Hangulize(%q) on Hangulizer %d: %s", rec.Task, rec.Idx, op.Word(), op.H, rec.OutT())
		untraced := soloCached(&Plan{Specs: p.Specs}, &o, plain)
		if untraced.Out() != rec.Out() {
			rep.fail("result", d+"; without any callback and alone it gives "+untraced.Out())
			return rep
		}
		if len(untraced.Trace) > 0 {
			rep.fail("untraced-events", d+"; without a callback it emits "+strings.Join(untraced.Trace, ";"))
			return rep
		}
		if op.H != 12 {
			want := soloCached(&Plan{Specs: p.Specs}, &o, extra)
			if want.OutT() != rec.OutT() {
				rep.fail("trace", d+"; alone it gives "+want.OutT())
				return rep
			}
		}
		if len(rec.cbs) > 1 {
			rep.fail("two-callbacks", d+"; its events went to different callbacks")
			return rep
		}
		if op.H == 12 && len(rec.Trace) > 0 {
			// Its callback is being changed: one of them gets all events.
			extra[len(extra)-1].Mode = "log"
			want := soloCached(&Plan{Specs: p.Specs}, &o, extra)
			if want.OutT() != rec.OutT() {
				rep.fail("partial-trace", d+"; alone with a callback it gives "+want.OutT())
				return rep
			}
			rep.class("traced-during-change")
		}
		if op.H == 12 || !on[op.H] || op.Word() == "" {
			continue
		}
		rep.class("traced")
		if msg := checkTrace(rec, hs[op.H]); msg != "" {
			rep.fail("trace-form", d+"; "+msg)
			return rep
		}
	}
	return rep
}

// checkTrace checks the form of one call's events.
func checkTrace(rec *Rec, h hangulize.Hangulizer) string {
	ev := rec.steps
	if len(ev) == 0 {
		return "no event although a callback is set"
	}
	if ev[0].Step != "Input" || ev[0].Word != rec.Op.Word() {
		return fmt.Sprintf("the first event is %s %q, not the input", ev[0].Step, ev[0].Word)
	}
	if rec.ErrKind == "" && ev[len(ev)-1].Word != rec.Res {
		return fmt.Sprintf("the last event ends at %q, the result is %q", ev[len(ev)-1].Word, rec.Res)
	}
	last, lastRule := 0, -1
	for i, e := range ev {
		n := stepOrder[e.Step]
		if n == 0 {
			return "unknown step " + e.Step
		}
		if n < last || n == 1 && i > 0 {
			return fmt.Sprintf("event %d, %s, is out of order", i, e.Step)
		}
		if n != last {
			lastRule = -1
		}
		last = n
		if n != 4 && n != 5 {
			if e.Rule != nil {
				return "an event of " + e.Step + " has a rule"
			}
			continue
		}
		rules := h.Spec().Rewrite
		if n == 5 {
			rules = h.Spec().Transcribe
		}
		if e.Rule == nil {
			continue
		}
		k := slices.IndexFunc(rules, func(r hangulize.Rule) bool { return r.ID == e.Rule.ID && r.String() == e.Rule.String() })
		if k < 0 {
			return fmt.Sprintf("the rule of event %d is not a rule of the spec: %s", i, e.Rule)
		}
		if k < lastRule {
			return fmt.Sprintf("event %d has an earlier rule than the one before it", i)
		}
		lastRule = k
	}
	if rec.ErrKind == "" && rec.Panic == "" {
		if msg := checkRewrites(ev, h.Spec()); msg != "" {
			return msg
		}
	}
	for _, x := range rec.rules {
		if now := fmt.Sprintf("|%d %s", x.r.ID, x.r); now != x.text {
			return fmt.Sprintf("the rule of an event changed after it was emitted: from %s to %s", x.text, now)
		}
	}
	return ""
}

// checkRewrites checks that the events of the rules of a rewriting show what
// each rule makes of the word before it. It knows this for words that are a
// single piece to the procedure.
func checkRewrites(ev []hangulize.Trace, sp *hangulize.Spec) string {
	cur, i := "", 0
	for i < len(ev) && stepOrder[ev[i].Step] < 4 {
		cur = ev[i].Word
		i++
	}
	if sp.Lang.Script != "Latn" || strings.Trim(cur, "abcdefghijklmnopqrstuvwxyz ") != "" || cur == "" {
		return ""
	}
	for _, r := range sp.Rewrite {
		next, dead := cur, true
		protect(func() string {
			next, dead = r.Replace(cur), false
			return ""
		})
		if dead {
			return "" // the call did not reach this rule
		}
		if next == cur {
			continue
		}
		if i >= len(ev) || ev[i].Step != "Rewrite" {
			return fmt.Sprintf("there is no event of rule %d %s, which turns %q into %q", r.ID, r, cur, next)
		}
		if e := ev[i]; e.Rule != nil && (e.Rule.ID != r.ID || e.Word != next) {
			return fmt.Sprintf("event %d says that rule %d %s turned %q into %q, but rule %d %s turned it into %q", i, e.Rule.ID, e.Rule, cur, e.Word, r.ID, r, next)
		}
		cur = next
		i++
	}
	if i < len(ev) && ev[i].Step == "Rewrite" {
		return fmt.Sprintf("event %d of %s turns %q into %q, but the rule does not", i, ev[i].Rule, cur, ev[i].Word)
	}
	return ""
}
