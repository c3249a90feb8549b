//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/internal/verifsim/gen/cmdhangulize"
	"github.com/hangulize/hangulize/internal/verifsim/gen/cmdmanifestjson"
	"github.com/hangulize/hangulize/internal/verifsim/simos"
	"github.com/hangulize/hangulize/internal/verifsim/simrt"
	"github.com/hangulize/hangulize/translit"
)

func init() {
	props["C14"] = &Prop{genC14, execC14}
	props["C15"] = &Prop{genC15, execC15}
	props["C16"] = &Prop{genC16, execC16}
	props["C17"] = &Prop{genC17, execC17}
	props["C18"] = &Prop{genC18, execC18}
}

// cmdEnv sets up what surrounds the simulated process.
func cmdEnv(p *Plan, args []string) *simos.Env {
	simos.Reset()
	e := simos.E
	e.Args = append([]string{"hangulize"}, args...)
	if s := p.Stdin; s != nil {
		text := s.Text()
		if s.ErrAt > 0 && s.ErrAt-1 <= len(text) {
			if s.Once {
				e.StdinRest = []simos.Chunk{{Data: text[s.ErrAt-1:]}}
			}
			text = text[:s.ErrAt-1]
			e.StdinErr = s.Err
		}
		for i := 0; text != ""; i++ {
			n := len(text)
			if len(s.Cuts) > 0 {
				n = min(n, max(1, s.Cuts[i%len(s.Cuts)]))
			}
			c := simos.Chunk{Data: text[:n]}
			if len(s.Ms) > 0 {
				c.Delay = int64(s.Ms[i%len(s.Ms)]) * 1_000_000
			}
			e.Stdin = append(e.Stdin, c)
			text = text[n:]
		}
		if len(s.Ms) > 0 { // the end may come late, too
			e.Stdin = append(e.Stdin, simos.Chunk{Delay: int64(s.Ms[0]) * 1_000_000})
		}
	}
	if p.OutErr > 0 {
		e.OutErr, e.OutErrno, e.OutOnce = p.OutErr-1, p.OutErrno, p.OutOnce
	}
	if p.ErrErr > 0 {
		e.ErrErr = p.ErrErr - 1
	}
	e.OutDelay = int64(p.OutMs) * 1_000_000
	e.ReadOnly = p.ReadOnly
	for _, f := range p.Files {
		e.Files = append(e.Files, &simos.Node{Name: f.Name, Data: slices.Clone(f.Bytes()), Dir: f.Dir, OpenErr: f.OpenErr, OpenFail: f.OpenFail,
			ReadErr: f.ReadErr - 1, ReadErrno: f.ReadErrno, ReadFail: f.ReadFail, WriteErr: f.WriteErr - 1, WriteErrno: f.WriteErrno, WriteOnce: f.WriteOnce, CloseErr: f.CloseErr, Chunk: f.Chunk})
	}
	return e
}

// runCmd runs a command's main function as a process of its own.
func runCmd(p *Plan, args []string, cfg simrt.Config, main func()) (simrt.Result, *simos.Env) {
	newProcess(cfg, true)
	st = nil
	e := cmdEnv(p, args)
	simos.Args = e.Args
	cfg.MainExit = true
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 250_000_000
	}
	res := simrt.Run(cfg, []func(){main})
	res.ExitCode &= 0xff // all that a parent process sees
	return res, e
}

// cmdRun adds the run to the report.
func (r *Report) cmdRun(res simrt.Result, e *simos.Env) bool {
	r.add(res)
	r.Calls++
	r.obs(fmt.Sprintf("%s %d %q %q", res.Outcome, res.ExitCode, e.Out, e.Err))
	for _, f := range e.Fired {
		r.fault(f.K, f.N)
		r.class(f.K)
	}
	if res.Outcome == "exit" && res.ExitCode == 0 {
		for _, n := range res.Leftover {
			_ = n
			r.class("ends-with-live-goroutine")
		}
	}
	if res.Outcome != "exit" && res.Outcome != "crash" {
		r.fail(res.Outcome, fmt.Sprintf("the command does not end: %s %s; %s", res.Outcome, res.Detail, strings.Join(res.Leftover, "; ")))
		return false
	}
	if res.Races > 0 {
		r.fail("race", fmt.Sprintf("%d data race report(s):\n%s", res.Races, raceText()))
		return false
	}
	return true
}

func fired(e *simos.Env, prefix string) bool {
	for _, f := range e.Fired {
		if strings.HasPrefix(f.K, prefix) {
			return true
		}
	}
	return false
}

var wordCache = map[string]string{}

// expectWord is the transcription of one word by the library with the standard
// translits, called alone.
func expectWord(lang, src, word string) (string, bool) {
	k := lang + "\x00" + src + "\x00" + word
	if v, ok := wordCache[k]; ok {
		return v[1:], v[0] == '+'
	}
	newProcess(npCfg, true)
	out := "-"
	func() {
		defer func() { recover() }()
		var sp *hangulize.Spec
		var err error
		if src != "" {
			sp, err = hangulize.ParseSpec(strings.NewReader(src))
		} else {
			sp, err = hangulize.LoadSpec(lang)
		}
		if err != nil {
			return
		}
		h := hangulize.New(sp)
		if src == "" {
			translit.Install(h)
		}
		if res, err := h.Hangulize(word); err == nil {
			out = "+" + res
		}
	}()
	if len(wordCache) > 20000 {
		wordCache = map[string]string{}
	}
	wordCache[k] = out
	return out[1:], out[0] == '+'
}

// ---- C14, C15 ----

func genWords(r *Rng, p *Plan) {
	var lang string
	switch r.N(5) {
	case 0:
		p.Kind = "dev"
		p.Files = []SimFile{{Name: "x.hsl", Data: genSpec(r, SpecOpt{Rules: 2})}}
	case 1:
		lang = genLangs(r, 1)[0]
	default:
		lang = pick(r, smallLang[:min(8, len(smallLang))])
		if r.P(0.15) {
			lang = r.Of("jpn", "chi", "rus", "bul")
		}
	}
	word := func() string {
		if lang == "" {
			return strings.Map(func(c rune) rune {
				if c == '\n' {
					return ' '
				}
				return c
			}, genSmallWord(r))
		}
		return strings.ReplaceAll(genWord(r, lang), "\n", " ")
	}
	var words []string
	for i, n := 0, r.In(1, 4); i < n; i++ {
		words = append(words, word())
	}
	verb := ""
	if r.P(0.35) {
		verb = r.Of("-v", "--verbose")
	}
	if p.Kind == "dev" {
		p.Args = []string{"dev", "x.hsl"}
	} else {
		p.Args = []string{lang}
	}
	if verb != "" {
		p.Args = slices.Insert(p.Args, r.N(len(p.Args)+1), verb)
	}
	if p.Kind == "" && r.P(0.25) {
		p.Kind = "args"
		for i, n := 0, r.In(1, 8); i < n; i++ {
			w := pick(r, words)
			if r.P(0.15) {
				w = ""
			}
			switch r.N(12) {
			case 0:
				w = r.Of(" ", "\t", "\n", "\u3000", "0", ".")
			case 1:
				w = r.Of(" ", "\n", "") + w + r.Of(" ", "\n", "\n"+w)
			}
			if strings.HasPrefix(w, "-") {
				w = "a" + w
			}
			p.Args = append(p.Args, w)
		}
		return
	}
	s := &StdinPlan{NoNL: r.P(0.5)}
	p.Stdin = s
	n := []int{0, 1, 2, 3, 5, 8, 20, 60}[r.N(8)]
	if r.P(0.01) {
		n = r.In(200, 700)
	}
	for i := 0; i < n; i++ {
		l := pick(r, words)
		switch r.N(14) {
		case 0, 1:
			l = ""
		case 2:
			l = r.Of(" ", "\t", "  \t ", "\r", "\u00a0", "\v", "\u2003", "\u3000")
		case 3:
			l = r.Of(" ", "\t") + l
		case 4:
			l += r.Of("\r", " ", "\t\r", "\u3000")
		case 5:
			if r.P(0.3) {
				l += strings.Repeat(" ", []int{4080, 4096, 65536, 70000}[r.N(4)])
			}
		case 6:
			if r.P(0.3) && !strings.HasPrefix(lang, "jpn") {
				l = strings.Repeat("1", []int{4090, 4096, 5000}[r.N(3)]) + l
			}
		case 7:
			l += "\x00" + pick(r, words)
		case 8:
			if r.P(0.5) {
				l += "\xff"
			}
		}
		s.Lines = append(s.Lines, l)
		if utf8.ValidString(l) {
			s.LinesB = append(s.LinesB, nil)
		} else {
			s.Lines[i] = ""
			s.LinesB = append(s.LinesB, []byte(l))
		}
	}
	switch r.N(5) {
	case 0:
		s.Cuts = []int{1}
		if len(s.Text()) > 6000 {
			s.Cuts = []int{977}
		}
	case 1:
		for i, n := 0, r.In(1, 6); i < n; i++ {
			s.Cuts = append(s.Cuts, r.In(1, 9))
		}
		if len(s.Text()) > 6000 {
			s.Cuts = append(s.Cuts, 4096)
		}
	case 2:
		s.Cuts = []int{4096}
	case 3: // line by line, as from a terminal
		for i := range s.Lines {
			s.Cuts = append(s.Cuts, len(s.Line(i))+1)
		}
	}
	if r.P(0.4) {
		for i, n := 0, r.In(1, 4); i < n; i++ {
			s.Ms = append(s.Ms, r.N(200)*r.N(2))
		}
	}
	if r.P(0.3) {
		p.OutMs = r.In(1, 100)
	}
	return
}

// expectOut is what the command must print for its whole input, line by line,
// or false if a word cannot be transcribed.
func expectOut(p *Plan, input string) (lines []string, ok bool) {
	ok = true
	var lang, src string
	var pos []string
	for _, a := range p.Args {
		if a != "-v" && a != "--verbose" {
			pos = append(pos, a)
		}
	}
	if len(pos) == 0 {
		return nil, false
	}
	if pos[0] == "dev" {
		if len(p.Files) == 0 {
			return nil, false
		}
		src = string(p.Files[0].Bytes())
	} else {
		lang = pos[0]
	}
	var words []string
	if len(pos) > 1 && src == "" {
		words = pos[1:]
	} else {
		for _, l := range strings.Split(input, "\n") {
			words = append(words, strings.TrimSpace(l))
		}
	}
	for _, w := range words {
		if w == "" {
			continue
		}
		res, good := expectWord(lang, src, w)
		if !good {
			return lines, false
		}
		lines = append(lines, res+"\n")
	}
	return
}

func genC14(r *Rng, p *Plan) {
	genWords(r, p)
	p.Cfg = randSched(r, 20_000)
}

func execC14(p *Plan) *Report {
	rep := &Report{}
	want, good := expectOut(p, p.Stdin.Text())
	if !good {
		return rep // the words of this plan cannot be transcribed
	}
	res, e := runCmd(p, p.Args, p.Cfg, cmdhangulize.Main)
	rep.Dec = res.Decisions
	if !rep.cmdRun(res, e) {
		return rep
	}
	w := strings.Join(want, "")
	d := fmt.Sprintf("hangulize %q with the input %s (read in pieces of %v bytes)", p.Args, clip(p.Stdin.Text()), stdinOf(p).Cuts)
	switch {
	case res.Outcome == "crash":
		rep.fail("crash", d+" crashed: "+res.Detail)
	case res.ExitCode != 0:
		rep.fail("exit", fmt.Sprintf("%s exited with status %d: %s", d, res.ExitCode, clip(string(e.Err))))
	case string(e.Out) != w:
		rep.fail("output", fmt.Sprintf("%s printed\n%s\ninstead of\n%s", d, clip(string(e.Out)), clip(w)))
	}
	if len(want) > 1 {
		rep.class("several-lines")
	}
	if p.Stdin != nil && p.Stdin.NoNL {
		rep.class("no-final-newline")
	}
	return rep
}

func genC15(r *Rng, p *Plan) {
	genWords(r, p)
	if len(p.Args) == 0 {
		return
	}
	in := len(p.Stdin.Text())
	if p.Stdin != nil && r.P(0.5) {
		p.Stdin.ErrAt = 1 + r.N(in+1)
		if r.P(0.2) {
			p.Stdin.ErrAt = r.Pick(1, in+1)
		}
		if r.P(0.3) { // right after a line
			if k := strings.IndexByte(p.Stdin.Text()[p.Stdin.ErrAt-1:], '\n'); k >= 0 {
				p.Stdin.ErrAt += k + 1
			}
		}
		p.Stdin.Err = r.Of("EIO", "EISDIR", "EBADF", "EINTR", "EAGAIN", "ETIMEDOUT", "ENXIO", "ENOMEM", "EINVAL", "ECONNRESET", "deadline", "closed")
		p.Stdin.Once = r.P(0.3)
	}
	if p.Stdin == nil || p.Stdin.ErrAt == 0 || r.P(0.2) {
		n := 12 * (1 + len(p.Args))
		if p.Stdin != nil {
			n = 12 * (1 + len(p.Stdin.Lines))
		}
		p.OutErr = 1 + r.N(n)
		if r.P(0.2) {
			p.OutErr = 1
		}
		p.OutErrno = r.Of("EIO", "ENOSPC", "EPIPE", "EBADF", "EDQUOT", "EINTR", "EAGAIN", "EFBIG", "ETIMEDOUT", "EINVAL", "ENXIO", "deadline", "closed")
		p.OutOnce = r.P(0.4)
	}
	if r.P(0.15) {
		p.ErrErr = 1 + r.N(60)
	}
	p.Cfg = randSched(r, 20_000)
}

// Pick picks one of the numbers.
func (r *Rng) Pick(l ...int) int { return l[r.N(len(l))] }

func execC15(p *Plan) *Report {
	rep := &Report{}
	text := p.Stdin.Text()
	if s := p.Stdin; s != nil && s.ErrAt > 0 && s.ErrAt-1 <= len(text) && !s.Once {
		// Only whole lines before the failure can be answered rightly.
		text = text[:s.ErrAt-1]
		text = text[:strings.LastIndexByte(text, '\n')+1]
	}
	want, good := expectOut(p, text)
	if !good {
		return rep
	}
	res, e := runCmd(p, p.Args, p.Cfg, cmdhangulize.Main)
	rep.Dec = res.Decisions
	if !rep.cmdRun(res, e) {
		return rep
	}
	w := strings.Join(want, "")
	d := fmt.Sprintf("hangulize %q with the input %s, faults %+v", p.Args, clip(p.Stdin.Text()), e.Fired)
	lost := fired(e, "stdin error") || fired(e, "stdout error") && (!p.OutOnce || string(e.Out) != w)
	switch {
	case !strings.HasPrefix(w, string(e.Out)):
		rep.fail("not-a-prefix", fmt.Sprintf("%s printed\n%s\nwhich is not a prefix of\n%s", d, clip(string(e.Out)), clip(w)))
	case lost && res.Outcome == "exit" && res.ExitCode == 0:
		rep.fail("success-reported", fmt.Sprintf("%s exited with status 0 after printing %s", d, clip(string(e.Out))))
	case !lost && res.Outcome == "exit" && res.ExitCode == 0 && string(e.Out) != w:
		rep.fail("lost", fmt.Sprintf("%s exited with status 0 but printed\n%s\ninstead of\n%s", d, clip(string(e.Out)), clip(w)))
	case !lost && len(e.Fired) == 0 && (res.ExitCode != 0 || res.Outcome != "exit"):
		rep.fail("no-fault", fmt.Sprintf("%s exited with status %d (%s) without any fault", d, res.ExitCode, res.Outcome))
	case s15(p, e, res, lost):
		rep.fail("input-unread", d+" exited with status 0 without having read its whole input")
	}
	return rep
}

// s15 tells whether the command reported success without reading to the end.
func s15(p *Plan, e *simos.Env, res simrt.Result, lost bool) bool {
	if p.Stdin == nil || res.Outcome != "exit" || res.ExitCode != 0 {
		return false
	}
	return p.Stdin.ErrAt > 0 && p.Stdin.ErrAt-1 <= len(p.Stdin.Text()) && !lost
}

// ---- C16, C17 ----

// genTestSpec writes a spec whose examples are right or wrong as asked, with
// comments and blank lines between the rules.
func genTestSpec(r *Rng, wrong int) string {
	o := SpecOpt{Rules: r.In(1, 4), Overlap: r.P(0.2)}
	many := r.P(0.06) // more rules than a word has bits
	if r.P(0.06) {
		o.Translits = []string{"nosuch"}
	}
	src := genSpec(r, o)
	var fill []string
	if many {
		n := r.In(55, 80)
		if r.P(0.3) {
			n = r.In(120, 200)
		}
		ls := lines(src)
		k := slices.Index(ls, r.Of("rewrite:", "transcribe:", "transcribe:")) + 1
		for ls[k] != "" && r.P(0.7) && k+1 < len(ls) && ls[k+1] != "" {
			k++
		}
		var add []string
		for i := 0; i < n; i++ {
			c := string(rune(0x100 + 2*i))
			fill = append(fill, string(rune(0x101+2*i)))
			if r.P(0.7) {
				c = string(rune(0x101 + 2*i))
			}
			add = append(add, fmt.Sprintf("    \"%s\" -> \"%s\"", c, r.Of("ㄱㅏ", "-ㄴ", "ㅏ", "ㅂㅐ-ㄱ")))
		}
		src = strings.Join(slices.Insert(ls, k, add...), "\n")
	}
	switch r.N(12) {
	case 0:
		src = src[:strings.Index(src, "\nrewrite:")] + src[strings.Index(src, "\ntranscribe:"):]
	case 1:
		src = src[:strings.Index(src, "\ntranscribe:")]
	}
	if r.P(0.5) { // comments and blank lines among the rules
		ls := lines(src)
		for i, n := 0, r.In(1, 4); i < n; i++ {
			k := r.N(len(ls))
			ls = slices.Insert(ls, k, r.Of("", "    # note", "# note \"x\" -> \"y\"", "    "))
		}
		src = strings.Join(ls, "\n")
		if strings.HasPrefix(src, "    ") || r.P(0.2) {
			src = "# head\n" + src
		}
	}
	if r.P(0.02) { // a line longer than any buffer
		ls := lines(src)
		k := r.N(len(ls))
		if !strings.Contains(ls[k], "->") || strings.Contains(ls[k], "#") || r.P(0.5) {
			ls = slices.Insert(ls, k, "#"+strings.Repeat(r.Of("-", "가", "= "), r.Pick(4096, 32768, 65530, 65536, 70000)))
		} else {
			ls[k] += "  # " + strings.Repeat("-", r.Pick(4096, 65480, 65536, 70000))
		}
		src = strings.Join(ls, "\n")
	}
	n := r.N(5)
	if many {
		n = r.In(2, 12)
	}
	if wrong > 0 {
		n++
	}
	if n > 0 {
		src += "\ntest:\n"
	}
	for i := 0; i < n; i++ {
		w := strings.Map(func(c rune) rune {
			if c == '"' || c == '\\' {
				return 'a'
			}
			return c
		}, genSmallWord(r))
		if many && len(w) < 60 {
			for j := r.In(0, 4); j >= 0; j-- {
				w += pick(r, fill)
			}
		}
		res, ok := expectWord("", src[:strings.LastIndex(src, "\ntest:\n")], w)
		if strings.ContainsAny(res, "\"\\") || !ok {
			res = ""
		}
		if i == n-1 && wrong > 0 || wrong > 1 && r.P(0.5) {
			res += r.Of("가", "x", " ")
		}
		src += fmt.Sprintf("    \"%s\" -> \"%s\"\n", w, res)
	}
	if r.P(0.15) { // comments after the pairs
		ls := lines(src)
		for i, l := range ls {
			if strings.Contains(l, "->") && !strings.Contains(l, "#") && r.P(0.4) {
				ls[i] += r.Of(" ", "", "\t") + "#" + r.Of("", " note", " \"x\" -> \"y\"", " x:", "#", " 한글")
			}
		}
		src = strings.Join(ls, "\n")
	}
	return src
}

// otherVersion changes rules of a spec; its examples are those of before or
// expect the new results.
func otherVersion(r *Rng, src string, wrong int) string {
	k := strings.LastIndex(src, "\ntest:\n")
	if k < 0 || len(src) > 20000 {
		return src
	}
	head, tests := src[:k], lines(src[k+len("\ntest:\n"):])
	if r.P(0.8) {
		head = tweakSpec(r, head)
	}
	if wrong > 0 && r.P(0.7) {
		return head + "\ntest:\n" + strings.Join(tests, "\n")
	}
	for i, l := range tests {
		q := strings.Split(l, "\"")
		if len(q) != 5 || strings.TrimSpace(q[0]+q[4]) != "" {
			continue
		}
		if res, ok := expectWord("", head, q[1]); ok && !strings.ContainsAny(res, "\"\\") {
			tests[i] = fmt.Sprintf("    \"%s\" -> \"%s\"", q[1], res)
		}
	}
	if n := len(tests); n > 1 && r.P(0.3) {
		tests = slices.Insert(tests, r.N(n), tests[r.N(n)]) // an example twice
	}
	return head + "\ntest:\n" + strings.Join(tests, "\n")
}

func genFiles(r *Rng, p *Plan, faults bool) {
	names := []string{"a.hsl", "b.hsl", "d/a.hsl", "./c.hsl", "한글.hsl"}
	n := r.In(1, 3)
	for i := 0; i < n; i++ {
		f := SimFile{Name: names[i]}
		wrong := 0
		if faults && r.P(0.3) {
			wrong = r.In(1, 2)
		}
		src := genTestSpec(r, wrong)
		f.Clean = true
		if i > 0 && r.P(0.3) {
			// Another version of an earlier file: the same language and words.
			if old := p.Files[r.N(i)].Data; old != "" {
				src = otherVersion(r, old, wrong)
				f.Clean = false
			}
		}
		if faults && r.P(0.015) {
			// As many failing examples as an exit status wraps around at, and others.
			src += "\ntest:\n"
			for k := r.Pick(20, 255, 256, 256, 256, 257, 512); k > 0; k-- {
				src += fmt.Sprintf("    \"%s\" -> \"x%d\"\n", lit(r, 1), k)
			}
		}
		if r.P(0.05) {
			src = langSrc[pick(r, smallLang[:4])]
			f.Clean = false
		}
		f.Data = src
		if r.P(0.3) {
			f.Chunk = r.In(1, 700)
		}
		if faults && r.P(0.3) {
			f.Clean = false
			switch r.N(7) {
			case 0:
				f.OpenErr = r.Of("ENOENT", "EACCES", "EMFILE", "ENFILE", "EIO", "ELOOP", "ENOTDIR", "ENXIO", "ESTALE", "EINTR")
			case 1, 2:
				f.ReadErr = 1 + r.N(len(src)+1)
				f.ReadErrno = r.Of("", "", "EISDIR", "ESTALE", "EAGAIN", "EINTR", "EBADF", "ENXIO", "closed", "deadline", "ENOMEM")
				if r.P(0.5) {
					if k := strings.IndexByte(src[f.ReadErr-1:], '\n'); k >= 0 {
						f.ReadErr += k + 1
					}
				}
				if k := strings.LastIndex(src, "\ntest:"); k > 0 && r.P(0.3) {
					f.ReadErr = k + 2 // all but the examples
				}
			case 3:
				if in := insideQuotes(src); len(in) > 0 {
					f.Data = src[:pick(r, in)]
				}
			case 4:
				f.Data, _ = damage(r, src)
			case 5:
				f.Data = brokenSpec(r, src)
			case 6:
				f.Dir = true
			}
			if !utf8.ValidString(f.Data) {
				f.DataB, f.Data = []byte(f.Data), ""
			}
		}
		p.Files = append(p.Files, f)
		p.Args = append(p.Args, f.Name)
		if r.P(0.1) {
			p.Args = append(p.Args, f.Name)
		}
	}
	if faults && r.P(0.06) {
		p.Args = append(p.Args, "missing.hsl")
	}
}

func genC16(r *Rng, p *Plan) {
	genFiles(r, p, true)
	p.N = r.N(1 << 20)
	p.Cfg = randSched(r, 20_000)
}

// verdict of one file, by the library alone: examples that fail, rules that an
// example exercised.
type verdict struct {
	bad      string // not readable or not a spec
	failing  [][2]string
	failed   [][3]string
	covered  map[string]bool
	examples int
}

var verdicts = map[string]*verdict{}

func fileVerdict(p *Plan, name string) *verdict {
	var f *SimFile
	for i := range p.Files {
		if p.Files[i].Name == name {
			f = &p.Files[i]
		}
	}
	if f == nil {
		return &verdict{bad: "missing"}
	}
	if f.OpenErr != "" || f.Dir {
		return &verdict{bad: "cannot be opened"}
	}
	data := string(f.Bytes())
	if f.ReadErr > 0 {
		return &verdict{bad: "cannot be read completely"}
	}
	if v := verdicts[data]; v != nil {
		return v
	}
	v := &verdict{covered: map[string]bool{}}
	newProcess(npCfg, true)
	func() {
		defer func() {
			if e := recover(); e != nil {
				v.bad = fmt.Sprint("panics: ", e)
			}
		}()
		sp, err := hangulize.ParseSpec(strings.NewReader(data))
		if err != nil {
			v.bad = "not a valid spec: " + err.Error()
			return
		}
		h := hangulize.New(sp)
		h.Trace(func(t hangulize.Trace) {
			if t.Rule != nil {
				v.covered[fmt.Sprintf("%s %d", t.Step, t.Rule.ID)] = true
			}
		})
		for _, e := range sp.Test {
			v.examples++
			res, err := h.Hangulize(e[0])
			if err != nil || res != e[1] {
				v.failed = append(v.failed, [3]string{e[0], res, e[1]})
			}
		}
	}()
	if len(verdicts) > 5000 {
		verdicts = map[string]*verdict{}
	}
	verdicts[data] = v
	return v
}

func execC16(p *Plan) *Report {
	rep := &Report{}
	if len(p.Args) == 0 {
		return rep
	}
	var why []string
	var failed [][3]string
	unreadable := false
	for _, n := range p.Args {
		n0 := n
		v := fileVerdict(p, n)
		if v.bad != "" {
			why = append(why, n+" "+v.bad)
			unreadable = true
		}
		for _, f := range p.Files {
			if n := len(ruleLines(string(f.Bytes()), "test")); f.Name == n0 && f.Clean && v.bad == "" && v.examples != n {
				rep.fail("example-lost", fmt.Sprintf("%s holds %d examples, but the parsed spec %d", n0, n, v.examples))
				return rep
			}
		}
		for _, f := range v.failed {
			why = append(why, fmt.Sprintf("%s: %q gives %q instead of %q", n, f[0], f[1], f[2]))
			failed = append(failed, f)
		}
	}
	r := NewRng(uint64(p.N))
	orders := [][]string{p.Args}
	if len(p.Args) > 1 {
		o := slices.Clone(p.Args)
		slices.Reverse(o)
		orders = append(orders, o)
	}
	cover := [][]string{nil, {"--cover"}, {"--coverprofile=out.cov"}, {"--cover", "--coverprofile", "out.cov"}, {"-v"}}
	k := 0
	for _, o := range orders {
		flags := [][]string{nil, cover[1+r.N(4)]}
		for _, fl := range flags {
			args := append(append([]string{"test"}, fl...), o...)
			if r.P(0.3) {
				args = append(append([]string{"test"}, o...), fl...)
			}
			cfg := p.Cfg
			if k > 0 {
				cfg = npCfg
				cfg.MapOrder, cfg.MapSeed = p.Cfg.MapOrder, p.Cfg.MapSeed
			}
			k++
			res, e := runCmd(p, args, cfg, cmdhangulize.Main)
			if k == 1 {
				rep.Dec = res.Decisions
			}
			if !rep.cmdRun(res, e) {
				return rep
			}
			d := fmt.Sprintf("hangulize %q", args)
			ok := res.Outcome == "exit" && res.ExitCode == 0
			if ok && len(why) > 0 {
				rep.fail("wrong-success", fmt.Sprintf("%s exited with status 0 although %s", d, strings.Join(why, "; ")))
				return rep
			}
			if !ok && len(why) == 0 {
				rep.fail("wrong-failure", fmt.Sprintf("%s ended with %s %d %s although every file is fine; it printed %s", d, res.Outcome, res.ExitCode, clip(res.Detail), clip(string(e.Err))))
				return rep
			}
			if !unreadable {
				all := string(e.Out) + string(e.Err)
				for _, f := range failed {
					if !strings.Contains(all, f[0]) || !strings.Contains(all, f[2]) {
						rep.fail("not-reported", fmt.Sprintf("%s does not report that %q should be %q; it printed %s", d, f[0], f[2], clip(all)))
						return rep
					}
				}
				// and nothing else
				if n := strings.Count(all, "expected: "); n != len(failed) && n > 0 {
					rep.fail("report-count", fmt.Sprintf("%s reports %d failed examples, there are %d; it printed %s", d, n, len(failed), clip(all)))
					return rep
				}
			}
		}
	}
	switch {
	case unreadable:
		rep.class("faulty-file")
	case len(failed) > 0:
		rep.class("failed-example")
	default:
		rep.class("all-well")
	}
	if len(orders) > 1 {
		rep.class("several-files")
	}
	return rep
}

func genC17(r *Rng, p *Plan) {
	genFiles(r, p, false)
	prof := r.Of("out.cov", "out.cov", "d/out.cov")
	p.Args = append([]string{"test", "--coverprofile=" + prof}, p.Args...)
	if r.P(0.2) {
		p.Args = append(p.Args, "--cover")
	}
	f := SimFile{Name: prof}
	exists := r.P(0.6)
	if exists {
		f.Data = r.Of("", "mode: count\nold.hsl:1.1,1.5 1 1\n", strings.Repeat("old.hsl:1.1,1.5 1 1\n", r.In(1, 200)))
	}
	switch r.N(9) {
	case 0:
		f.OpenErr = r.Of("EACCES", "EMFILE", "EISDIR", "EROFS", "ENOSPC", "ENXIO", "EINTR", "EDQUOT")
		exists = true
	case 1, 2, 3:
		f.WriteErr = 1 + r.N(60*(1+len(p.Args)))
		if r.P(0.3) {
			f.WriteErr = 1 + r.N(20)
		}
		f.WriteErrno = r.Of("ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR", "EAGAIN", "ESTALE", "EROFS")
		f.WriteOnce = r.P(0.3)
		exists = true
	case 4:
		f.CloseErr = true
		exists = true
	case 5:
		if !exists {
			p.ReadOnly = true
		}
	case 6: // a spec cannot be read a second time
		k := r.N(len(p.Files))
		g := &p.Files[k]
		if r.P(0.5) {
			g.OpenErr, g.OpenFail = "EMFILE", r.In(2, 3)
		} else {
			g.ReadErr, g.ReadFail = 1+r.N(len(g.Data)+1), r.In(2, 3)
		}
	}
	if exists {
		p.Files = append(p.Files, f)
	}
	p.Cfg = randSched(r, 20_000)
}

// ruleLines finds the rules of a section in a spec source: one per line.
func ruleLines(src, section string) (l [][2]int) {
	in := false
	for i, line := range lines(src) {
		t := strings.TrimSpace(line)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		if strings.HasSuffix(t, ":") && !strings.Contains(t, "\"") {
			in = t == section+":"
			continue
		}
		if in && strings.Contains(t, "->") {
			l = append(l, [2]int{i + 1, len(strings.TrimSuffix(line, "\r")) + 1})
		}
	}
	return
}

func execC17(p *Plan) *Report {
	rep := &Report{}
	var names []string
	prof := ""
	for _, a := range p.Args {
		if s, ok := strings.CutPrefix(a, "--coverprofile="); ok {
			prof = s
		} else if a != "test" && !strings.HasPrefix(a, "--") && !slices.Contains(names, a) {
			names = append(names, a)
		}
	}
	if prof == "" || len(names) == 0 || p.Args[0] != "test" {
		return rep
	}
	var want []string
	good := true
	for _, n := range names {
		q := p.clone()
		for i := range q.Files {
			if q.Files[i].ReadFail > 1 {
				q.Files[i].ReadErr = 0
			}
			if q.Files[i].OpenFail > 1 {
				q.Files[i].OpenErr = ""
			}
		}
		v := fileVerdict(q, n)
		good = good && v.bad == "" && len(v.failed) == 0
		var src string
		for _, f := range p.Files {
			if f.Name == n {
				src = string(f.Bytes())
			}
		}
		for _, s := range [][2]string{{"rewrite", "Rewrite"}, {"transcribe", "Transcribe"}} {
			for id, l := range ruleLines(src, s[0]) {
				c := 0
				if v.covered[fmt.Sprintf("%s %d", s[1], id)] {
					c = 1
				}
				want = append(want, fmt.Sprintf("%s:%d.1,%d.%d 1 %d", n, l[0], l[0], l[1], c))
			}
		}
	}
	if prof == "" || len(names) == 0 {
		return rep
	}
	res, e := runCmd(p, p.Args, p.Cfg, cmdhangulize.Main)
	rep.Dec = res.Decisions
	if !rep.cmdRun(res, e) {
		return rep
	}
	d := fmt.Sprintf("hangulize %q, faults %+v", p.Args, e.Fired)
	ok := res.Outcome == "exit" && res.ExitCode == 0
	harmless := true
	for _, f := range e.Fired {
		harmless = harmless && f.K == "file short read"
	}
	if !ok {
		if good && harmless {
			rep.fail("needless-failure", fmt.Sprintf("%s ended with %s %d %s; it printed %s", d, res.Outcome, res.ExitCode, clip(res.Detail), clip(string(e.Err))))
		} else if good {
			rep.class("fault-reported")
		}
		return rep
	}
	var data string
	if n := e.Find(prof); n != nil {
		data = string(n.Data)
	} else {
		rep.fail("no-profile", d+" exited with status 0 and wrote no profile")
		return rep
	}
	got := strings.SplitAfter(data, "\n")
	if got[len(got)-1] == "" {
		got = got[:len(got)-1]
	}
	head := ""
	if len(got) > 0 {
		head = got[0]
		got = got[1:]
	}
	for i := range want {
		want[i] += "\n"
	}
	w, g := slices.Clone(want), slices.Clone(got)
	sort.Strings(w)
	sort.Strings(g)
	if head != "mode: count\n" || !slices.Equal(w, g) {
		rep.fail("incomplete-profile", fmt.Sprintf("%s exited with status 0; the profile holds\n%s\ninstead of\nmode: count\n%s", d, clip(data), clip(strings.Join(want, ""))))
		return rep
	}
	rep.class("complete")
	if len(want) == 0 {
		rep.class("empty-profile")
	}
	return rep
}

// ---- C18 ----

func genC18(r *Rng, p *Plan) {
	p.Cfg = simrt.Config{Policy: "np", MapOrder: r.Of("reverse", "shuffle", "shuffle"), MapSeed: r.U(), Proc: genProc(r)}
	if r.P(0.6) {
		p.OutErr = 1 + r.N(300_000)
		if r.P(0.4) {
			p.OutErr = 1 + r.N(5000)
		}
		p.OutErrno = r.Of("EIO", "ENOSPC", "EPIPE", "EBADF", "EINTR", "EAGAIN", "EFBIG", "EINVAL", "deadline", "closed")
		p.OutOnce = r.P(0.4)
	}
}

var manifestRef string

func execC18(p *Plan) *Report {
	rep := &Report{}
	if manifestRef == "" {
		res, e := runCmd(&Plan{}, nil, npCfg, cmdmanifestjson.Main)
		if res.Outcome != "exit" || res.ExitCode != 0 {
			rep.cmdRun(res, e)
			rep.fail("fails", fmt.Sprintf("generating the manifest fails: %s %d %s", res.Outcome, res.ExitCode, res.Detail))
			return rep
		}
		if msg := checkManifest(e.Out); msg != "" {
			rep.fail("content", msg)
			return rep
		}
		manifestRef = string(e.Out)
	}
	res, e := runCmd(p, nil, p.Cfg, cmdmanifestjson.Main)
	rep.Dec = res.Decisions
	if !rep.cmdRun(res, e) {
		return rep
	}
	ok := res.Outcome == "exit" && res.ExitCode == 0
	out := string(e.Out)
	switch {
	case ok && fired(e, "stdout error") && (!p.OutOnce || out != manifestRef):
		rep.fail("cut", fmt.Sprintf("the program exited with status 0 although writing failed after %d of %d bytes", len(out), len(manifestRef)))
	case ok && out != manifestRef:
		i := 0
		for i < len(out) && i < len(manifestRef) && out[i] == manifestRef[i] {
			i++
		}
		rep.fail("not-reproducible", fmt.Sprintf("another run printed other bytes, from offset %d on: %s instead of %s", i, clip(out[i:min(len(out), i+80)]), clip(manifestRef[i:min(len(manifestRef), i+80)])))
	case !ok && !fired(e, "stdout error"):
		rep.fail("fails", fmt.Sprintf("generating the manifest fails: %s %d %s", res.Outcome, res.ExitCode, res.Detail))
	}
	rep.class("map-order-" + p.Cfg.MapOrder)
	return rep
}

func checkManifest(b []byte) string {
	var m struct {
		Specs     map[string]struct{ Lang struct{ ID string } }
		Translits []string
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return "the manifest is not valid JSON: " + err.Error()
	}
	need := map[string]bool{}
	for _, l := range langs {
		sp, ok := m.Specs[l]
		if !ok || sp.Lang.ID != l {
			return "the manifest lacks the language " + l
		}
		for _, t := range langTr[l] {
			need[t] = true
		}
		if n := strings.Count(string(b), fmt.Sprintf(`"id":%q`, l)); n != 1 {
			return fmt.Sprintf("the language %s is listed %d times", l, n)
		}
	}
	if len(m.Specs) != len(langs) {
		return fmt.Sprintf("the manifest lists %d languages, there are %d", len(m.Specs), len(langs))
	}
	var w []string
	for k := range need {
		w = append(w, k)
	}
	sort.Strings(w)
	g := slices.Clone(m.Translits)
	sort.Strings(g)
	if !slices.Equal(w, g) {
		return fmt.Sprintf("the manifest lists the translits %v, needed are %v", m.Translits, w)
	}
	return ""
}
