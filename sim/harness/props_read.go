//go:build go1.23

package main

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"
)

func init() {
	props["C10"] = &Prop{genC10, execC10}
	props["C11"] = &Prop{genC11, execC11}
	props["C12"] = &Prop{genC12, execC12}
}

// genHSL writes a random HSL document.
func genHSL(r *Rng) string {
	var sb strings.Builder
	str := func() string {
		s := r.Of("a", "b", "key", "한글", "é", "日本語", "𝄞", "x y", "#no", "a:b", "->", "=", ",", "", "{@}", "^a$", "ab|c")
		if r.P(0.3) {
			s += r.Of("é", "1", " ", "가나다", "𝒳")
		}
		ident := s != ""
		for i, c := range s {
			if !(c == '_' || c >= 'a' && c <= 'z' || c > 127 && c < 0xffff || i > 0 && c >= '0' && c <= '9') {
				ident = false
			}
		}
		if ident && r.P(0.5) {
			return s
		}
		if r.P(0.1) {
			s += `\"q`
		}
		return `"` + s + `"`
	}
	nl := r.Of("\n", "\n", "\n", "\r\n")
	if r.P(0.1) {
		sb.WriteString("\ufeff")
	}
	for i, n := 0, r.In(0, 4); i < n; i++ {
		if r.P(0.3) {
			sb.WriteString("# comment " + r.Of("", "é", "\"quoted\"", "x: y") + nl)
		}
		name := r.Of("lang", "rewrite", "test", "vars", "sec", "한")
		dict := r.P(0.5)
		sb.WriteString(name + ":" + nl)
		for j, k := 0, r.In(0, 5); j < k; j++ {
			key := str()
			if dict {
				key = fmt.Sprintf("k%d", j*10+r.N(9))
			}
			op := "->"
			if dict {
				op = "="
			}
			if r.P(0.05) {
				op = r.Of("->", "=")
			}
			var vs []string
			for v, m := 0, r.In(1, 3); v < m; v++ {
				vs = append(vs, str())
			}
			sp := r.Of(" ", " ", "", "  ", "\t")
			sb.WriteString(r.Of("    ", "\t", "") + key + sp + op + sp + strings.Join(vs, ","+r.Of(" ", "", "\t")))
			if r.P(0.2) {
				sb.WriteString(" # trailing " + r.Of("", "한", "\""))
			}
			sb.WriteString(r.Of("", "", "", " ") + nl)
		}
	}
	s := sb.String()
	if r.P(0.3) {
		s = strings.TrimRight(s, "\r\n")
	}
	if r.P(0.03) {
		s += r.Of("\x00", "-", "\"", "\"abc", "\\", "\xff", "\x00\n\"a\"")
	}
	return s
}

// damage changes bytes of a document as failing storage would.
func damage(r *Rng, s string) (string, string) {
	b := []byte(s)
	n := len(b)
	if n == 0 {
		return s, "none"
	}
	at := func() int {
		if r.P(0.3) { // near something interesting
			var l []int
			for i, c := range b {
				if strings.IndexByte("\"\\:=-#,\n{<|~>", c) >= 0 || c >= 0x80 {
					l = append(l, i)
				}
			}
			if len(l) > 0 {
				return pick(r, l)
			}
		}
		return r.N(n)
	}
	switch r.N(9) {
	case 0, 1:
		return string(b[:at()]), "truncated"
	case 2:
		b[at()] ^= 1 << r.N(8)
		return string(b), "bit flipped"
	case 3:
		b[at()] = byte(r.N(256))
		return string(b), "byte changed"
	case 4:
		b[at()] = "\"\\:=-#,\n{}<>|~^$@() "[r.N(20)]
		return string(b), "byte changed"
	case 5:
		i := at()
		j := min(n, i+[]int{1, 2, 8, 64, 512}[r.N(5)])
		return string(b[:i]) + string(b[j:]), "range lost"
	case 6:
		i := at()
		j := min(n, i+[]int{1, 4, 16, 64, 512}[r.N(5)])
		return string(b[:j]) + string(b[i:]), "range duplicated"
	case 7:
		i := at()
		j := min(n, i+[]int{1, 4, 64, 512, 4096}[r.N(5)])
		for k := i; k < j; k++ {
			b[k] = 0
		}
		return string(b), "range zeroed"
	}
	// a block written at the wrong place
	i, j := at(), at()
	k := min(64, n-i, n-j)
	copy(b[i:i+k], append([]byte(nil), b[j:j+k]...))
	return string(b), "block misplaced"
}

// inflate makes a document large: one line many times, or one string or
// comment long.
func inflate(r *Rng, s string) string {
	ls := strings.SplitAfter(s, "\n")
	size := r.Pick(5_000, 9_000, 20_000, 70_000)
	for i := 0; i < 20; i++ {
		k := r.N(len(ls))
		l := ls[k]
		switch {
		case !strings.HasSuffix(l, "\n"):
		case strings.Contains(l, "->"):
			ls[k] = strings.Repeat(l, size/len(l)+1)
			return strings.Join(ls, "")
		case strings.Contains(l, "="):
			ls[k] = strings.TrimRight(l, "\r\n ") + strings.Repeat(r.Of(", q", ",\"é\"", " # c"), min(size, 9000)/4) + "\n"
			return strings.Join(ls, "")
		case strings.HasPrefix(l, "#"):
			ls[k] = l[:1] + strings.Repeat(r.Of("x", "한", "\" "), size/2) + "\n"
			return strings.Join(ls, "")
		case strings.TrimSpace(l) == "":
			ls[k] = strings.Repeat(r.Of("\n", " \n", "# é\n", "    \n"), size/3)
			return strings.Join(ls, "")
		}
	}
	return s
}

// genDoc draws a document.
func genDoc(r *Rng, dmg float64) (string, string) {
	var s string
	switch k := r.N(10); {
	case k < 4:
		s = genSpec(r, SpecOpt{Overlap: r.P(0.3), Tests: r.N(3)})
	case k < 5:
		s = brokenSpec(r, genSpec(r, SpecOpt{}))
	case k < 6:
		s = langSrc[pick(r, smallLang)]
	default:
		s = genHSL(r)
	}
	kind := ""
	if r.P(0.03) {
		s = inflate(r, s)
	}
	if r.P(dmg) {
		for i, n := 0, r.In(1, 2); i < n; i++ {
			s, kind = damage(r, s)
		}
	}
	return s, kind
}

func addDoc(p *Plan, s string) {
	p.Specs = append(p.Specs, "")
	p.SpecB = append(p.SpecB, nil)
	if utf8.ValidString(s) {
		p.Specs[len(p.Specs)-1] = s
	} else {
		p.SpecB[len(p.SpecB)-1] = []byte(s)
	}
}

// genCuts draws how a reader cuts its bytes.
func genCuts(r *Rng, src string) *RPlan {
	rp := &RPlan{EOFWith: r.P(0.4)}
	switch r.N(6) {
	case 0:
		rp.Cuts = []int{1}
	case 1:
		rp.Cuts = []int{r.In(1, 5)}
	case 2:
		for i, n := 0, r.In(2, 12); i < n; i++ {
			rp.Cuts = append(rp.Cuts, r.In(1, 40))
		}
	case 3: // cut around one place, often inside a character or token
		at := r.N(len(src) + 1)
		for i := 0; i < len(src); i++ {
			if r.P(0.02) && (src[i] >= 0x80 || strings.IndexByte("-\"#\\", src[i]) >= 0) {
				at = i + 1
				break
			}
		}
		rp.Cuts = []int{max(1, at), 1, 1, 1 << 20}
	case 4: // around the buffer size of the parser
		rp.Cuts = []int{4095, 1, 4096, 2}
	}
	if r.P(0.3) {
		rp.Empty = r.In(1, 5)
	}
	return rp
}

func readersOnly(p *Plan) *St {
	// The documents are given to readers as they are; nothing is parsed before.
	q := *p
	q.Specs, q.SpecB, q.Setup = nil, nil, nil
	s := newSt(&q, nil)
	s.p = p
	return s
}

func genC10(r *Rng, p *Plan) {
	var ops []Op
	for i, n := 0, r.In(1, 3); i < n; i++ {
		s, _ := genDoc(r, 0.25)
		addDoc(p, s)
		for j, m := 0, r.In(1, 3); j < m; j++ {
			k := r.Of("parse", "hsl")
			ops = append(ops, Op{K: k, S: i, R: genCuts(r, s)})
		}
	}
	p.Tasks = [][]Op{ops}
	p.Cfg = npCfg
}

func genC11(r *Rng, p *Plan) {
	var ops []Op
	for i, n := 0, r.In(1, 3); i < n; i++ {
		s, _ := genDoc(r, 0)
		addDoc(p, s)
		for j, m := 0, r.In(1, 3); j < m; j++ {
			rp := genCuts(r, s)
			rp.ErrAt = 1 + r.N(len(s)+1)
			if r.P(0.3) {
				// at the end of a line: what was read is a document by itself
				if k := strings.IndexByte(s[rp.ErrAt-1:], '\n'); k >= 0 {
					rp.ErrAt += k + 1
				}
			} else if r.P(0.2) {
				rp.ErrAt = len(s) + 1
			} else if r.P(0.1) {
				rp.ErrAt = 1
			}
			rp.ErrKind = r.Of("io", "unexpected", "timeout", "wrapeof", "closed", "noprogress", "eintr", "eagain", "deadline", "osclosed", "canceled", "shortbuf", "eoftext", "empty", "stall")
			rp.ErrWith = r.P(0.5)
			rp.OneShot = r.P(0.5)
			if rp.ErrKind == "stall" {
				rp.ErrWith = false
			}
			k := r.Of("parse", "parse", "hsl")
			ops = append(ops, Op{K: k, S: i, R: rp})
			if r.P(0.5) {
				ops = append(ops, Op{K: k, S: i})
			}
		}
	}
	p.Tasks = [][]Op{ops}
	p.Cfg = npCfg
}

func (r *Rec) docOut() string {
	s := r.Out()
	if r.Spec != nil {
		s += " " + specFP(r.Spec)
	}
	return s
}

// whole is the outcome of parsing a document that arrives at once.
func whole(p *Plan, op *Op) *Rec {
	o := Op{K: op.K, S: 0}
	q := &Plan{}
	addDoc(q, (&St{p: p}).src(op.S))
	saved := st
	s := readersOnly(q)
	cfg := npCfg
	cfg.MaxSteps = 150_000_000
	res := s.runTasks(cfg, [][]Op{{o}})
	rec := &Rec{Op: &o}
	if len(s.recs[0]) > 0 {
		rec = s.recs[0][0]
	}
	if res.Outcome != "done" {
		rec.Panic = "outcome " + res.Outcome
	}
	st = saved
	return rec
}

func execRead(p *Plan, f func(rep *Report, s *St, rec *Rec)) *Report {
	rep := &Report{}
	s := readersOnly(p)
	res := s.runTasks(p.Cfg, p.Tasks)
	rep.Dec = res.Decisions
	ok := rep.world(res)
	l := append([]*Rec(nil), s.all()...)
	for _, rec := range l {
		rep.obs(rec.docOut())
		rep.Calls++
	}
	if !ok {
		return rep
	}
	for _, rec := range l {
		f(rep, s, rec)
		if rep.Viol != "" {
			return rep
		}
	}
	return rep
}

func clip(s string) string {
	if len(s) > 600 {
		return fmt.Sprintf("%q… (%d bytes)", s[:600], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func execC10(p *Plan) *Report {
	return execRead(p, func(rep *Report, s *St, rec *Rec) {
		src := s.src(rec.Op.S)
		want := whole(p, rec.Op)
		if rec.docOut() != want.docOut() {
			rep.fail("delivery", fmt.Sprintf("%s of %s delivered as %+v gave\n%s\nin one piece it gives\n%s", rec.Op.K, clip(src), *rec.Op.R, clip(rec.docOut()), clip(want.docOut())))
			return
		}
		if rec.Spec != nil && rec.Spec.Source != src {
			rep.fail("source", fmt.Sprintf("the source kept in the spec is not what was delivered: %s instead of %s", clip(rec.Spec.Source), clip(src)))
			return
		}
		if rec.NReads > 2 {
			rep.class("pieces")
			rep.fault("short read", rec.NReads-2)
		}
		if rec.Op.R.Empty > 0 && rec.NReads > rec.Op.R.Empty {
			rep.fault("empty read", rec.NReads/(rec.Op.R.Empty+1))
		}
		if rec.Op.R.EOFWith && len(src) > 0 {
			rep.class("eof-with-data")
		}
	})
}

func execC11(p *Plan) *Report {
	return execRead(p, func(rep *Report, s *St, rec *Rec) {
		src := s.src(rec.Op.S)
		if rec.Panic != "" {
			rep.fail("panic", fmt.Sprintf("%s of %s read with %+v panicked: %s", rec.Op.K, clip(src), rec.Op.R, rec.Panic))
			return
		}
		if rec.Op.R == nil || rec.Op.R.ErrAt == 0 {
			want := whole(p, rec.Op)
			if rec.docOut() != want.docOut() {
				rep.fail("retry", fmt.Sprintf("%s of %s from a healthy reader gave\n%s\nin a new process it gives\n%s", rec.Op.K, clip(src), clip(rec.docOut()), clip(want.docOut())))
			}
			rep.class("retry")
			return
		}
		rep.fault("read error "+rec.Op.R.ErrKind, 1)
		rep.class("failed-at-" + []string{"start", "middle", "end"}[btoi(rec.Op.R.ErrAt > 1)+btoi(rec.Op.R.ErrAt > len(src))])
		if rec.Err == "" || rec.Bool {
			rep.fail("not-reported", fmt.Sprintf("%s of %s (%d bytes): the reader failed (%s) at offset %d, yet the result is %s (document returned: %v)", rec.Op.K, clip(src), len(src), rec.Op.R.ErrKind, rec.Op.R.ErrAt-1, clip(rec.Out()), rec.Bool))
		}
	})
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- C12 ----

func genC12(r *Rng, p *Plan) {
	var ops []Op
	for i, n := 0, r.In(1, 4); i < n; i++ {
		if r.P(0.3) {
			// cut inside a quoted string
			s, _ := genDoc(r, 0)
			if in := insideQuotes(s); len(in) > 0 {
				addDoc(p, s[:pick(r, in)])
				ops = append(ops, Op{K: "parse", S: len(p.Specs) - 1, Mode: "cut"}, Op{K: "hsl", S: len(p.Specs) - 1, Mode: "cut"})
				continue
			}
		}
		s, kind := genDoc(r, 0.9)
		addDoc(p, s)
		ops = append(ops, Op{K: r.Of("parse", "parse", "hsl"), S: len(p.Specs) - 1, W: kind})
	}
	p.Tasks = [][]Op{ops}
	p.Cfg = npCfg
	p.N = -1 // sources are not made smaller by lines: a cut must stay a cut
}

// insideQuotes lists the offsets at which a cut falls inside a quoted string of
// a well-formed document.
func insideQuotes(s string) (l []int) {
	in, comment := false, false
	for i := 0; i < len(s); i++ {
		if in {
			l = append(l, i)
		}
		switch c := s[i]; {
		case comment:
			comment = c != '\n'
		case in && c == '\\':
			i++
			l = append(l, i)
		case c == '"':
			in = !in
		case !in && c == '#':
			comment = true
		}
	}
	if in {
		return nil
	}
	return
}

var maxRatio float64

func execC12(p *Plan) *Report {
	// The bound on the steps of one document; see DESIGN.md.
	n := 0
	for i := range max(len(p.Specs), len(p.SpecB)) {
		n += len((&St{p: p}).src(i))
	}
	q := *p
	q.Cfg.MaxSteps = c12Base*int64(len(p.Tasks[0])) + c12PerByte*2*int64(n)
	rep := execRead(&q, func(rep *Report, s *St, rec *Rec) {
		src := s.src(rec.Op.S)
		if rec.Panic != "" {
			rep.fail("panic", fmt.Sprintf("%s of %s panicked: %s", rec.Op.K, clip(src), rec.Panic))
			return
		}
		if lim := c12Base + c12PerByte*int64(len(src)); rec.Steps > lim {
			rep.fail("slow", fmt.Sprintf("%s of %s took %d steps for %d bytes", rec.Op.K, clip(src), rec.Steps, len(src)))
			return
		}
		maxRatio = math.Max(maxRatio, float64(rec.Steps-c12Base)/float64(len(src)+1))
		if (rec.Err == "") != rec.Bool {
			rep.fail("neither", fmt.Sprintf("%s of %s gave a result: %v, and the error %q", rec.Op.K, clip(src), rec.Bool, rec.Err))
			return
		}
		if rec.Op.Mode == "cut" {
			rep.fault("cut inside a string", 1)
			rep.class("cut-in-string")
			if rec.Err == "" {
				rep.fail("cut-accepted", fmt.Sprintf("%s accepted a document that was cut off inside a quoted string: %s", rec.Op.K, clip(src)))
			}
			return
		}
		if rec.Op.W != "" {
			rep.fault(rec.Op.W, 1)
			rep.class("damaged")
		}
	})
	if rep.Viol != "" {
		return rep
	}
	return rep
}

const (
	c12Base    = 20_000
	c12PerByte = 300
)
