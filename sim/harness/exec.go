//go:build go1.23

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"
	"syscall"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/internal/verifsim/simpool"
	"github.com/hangulize/hangulize/internal/verifsim/simrt"
	"github.com/hangulize/hangulize/pkg/hsl"
	"github.com/hangulize/hangulize/translit"
)

// Rec is what one operation did.
type Rec struct {
	Task, Idx int
	Op        *Op
	Inv, Ret  int64
	Res       string
	ErrKind   string
	Err       string
	Panic     string
	Bool      bool
	Calls     []string // translit calls made on behalf of this operation
	Trace     []string
	Spec      *hangulize.Spec
	List      []string
	Nested    []*Rec
	Done      bool
	Steps     int64
	NReads    int
	Need      []string // translits that the spec of the call requires
	Is        string   // which of the documented errors the error is
	rules     []ruleRef
	cbs       []*Op // the trace operations whose callbacks received events
	steps     []hangulize.Trace
}

// ruleRef is a rule that a trace callback received.
type ruleRef struct {
	r    *hangulize.Rule
	text string
}

// Out is the part of a record that must not depend on anything but the inputs.
func (r *Rec) Out() string {
	return fmt.Sprintf("%q err=%s/%q panic=%q bool=%v list=%v", r.Res, r.ErrKind, r.Err, r.Panic, r.Bool, r.List)
}

func (r *Rec) OutT() string {
	return r.Out() + " calls=" + strings.Join(r.Calls, ";") + " trace=" + strings.Join(r.Trace, ";")
}

// St is the state of one simulated process.
type St struct {
	stubs  *stubNode // of the translits given by plans
	p      *Plan
	specs  []*hangulize.Spec
	hs     [100]hangulize.Hangulizer
	recs   [][]*Rec
	cur    []*Rec // stack top per task
	lists  []map[string]hangulize.Translit
	base   int
	shared *sharedVals
}

var st *St

func errKind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, hangulize.ErrTranslit):
		return "translit"
	case errors.Is(err, hangulize.ErrSpecNotFound):
		return "notfound"
	case errors.Is(err, hangulize.ErrTranslitNotImported):
		return "notimported"
	}
	return "other"
}

func (s *St) src(i int) string {
	if i >= 0 && i < len(s.p.SpecB) && s.p.SpecB[i] != nil {
		return string(s.p.SpecB[i])
	}
	if i >= 0 && i < len(s.p.Specs) {
		return s.p.Specs[i]
	}
	return ""
}

// stubT is a translit whose behaviour the plan decides.
type stubT struct{ p *TPlan }

func curRec() *Rec {
	t := simrt.Self()
	if st == nil || t < 0 || t >= len(st.cur) {
		return nil
	}
	return st.cur[t]
}

func (t *stubT) hit() bool {
	if t.p.Only == "" {
		return true
	}
	r := curRec()
	return r != nil && r.Op != nil && t.p.only(r.Op.Id)
}

func (p *TPlan) only(id string) bool {
	return p.Only == "" || strings.Contains(","+p.Only+",", ","+id+",")
}

// stubV is a translit of a type that cannot be compared.
type stubV struct {
	*stubT
	pad []int
}

// stub gives the translit of a plan. The same plan is the same translit.
//
// The tasks share the list. It is not a map, because the race detector sees the
// accesses of every map (and only those, in this package).
func (s *St) stub(p *TPlan) hangulize.Translit {
	for n := s.stubs; n != nil; n = n.next {
		if n.p == p || reflect.DeepEqual(n.p, p) {
			return n.t
		}
	}
	var t hangulize.Translit = &stubT{p}
	if p.Val {
		t = stubV{&stubT{p}, nil}
	}
	s.stubs = &stubNode{p, t, s.stubs}
	return t
}

type stubNode struct {
	p    *TPlan
	t    hangulize.Translit
	next *stubNode
}

func (t *stubT) Scheme() string {
	if t.p.SMode != "" && t.hit() {
		switch t.p.SMode {
		case "panic":
			panic("boom in Scheme of " + t.p.Scheme)
		case "reenter":
			nested(t.p.Ops)
		}
	}
	for i := 0; i < t.p.Yields; i++ {
		simrt.Point()
	}
	return t.p.Scheme
}

var errStub = errors.New("stub translit failed")

// stubErrs are the errors of failing translits: their own ones, and those of
// what a translit may use itself. (A new execution has new error values.)
func stubErr(i int) error {
	errs := []error{
		errStub,
		fmt.Errorf("%w: other", hangulize.ErrTranslitNotImported),
		fmt.Errorf("stub: %w", errStub),
		fmt.Errorf("stub: %w", fmt.Errorf("%w: other", hangulize.ErrTranslit)),
		io.EOF,
		fmt.Errorf("%w: other", hangulize.ErrSpecNotFound),
		context.Canceled,
		emptyErr{},
	}
	return errs[i%len(errs)]
}

// emptyErr is an error without a text.
type emptyErr struct{}

func (emptyErr) Error() string { return "" }

func (t *stubT) out(in string) string {
	switch t.p.Mode {
	case "upper":
		return strings.ToUpper(in)
	case "id":
		return in
	case "const":
		return t.p.Out
	}
	if t.p.Out != "" {
		return in + t.p.Out
	}
	return in + string(alpha[t.p.Ver%len(alpha)])
}

func (t *stubT) Transliterate(in string) (string, error) {
	r := curRec()
	if r != nil {
		r.Calls = append(r.Calls, fmt.Sprintf("%s#%d(%q)", t.p.Scheme, t.p.Ver, in))
	}
	for i := 0; i < t.p.Yields; i++ {
		simrt.Point()
	}
	if t.hit() {
		switch t.p.Mode {
		case "err":
			return in + "?", stubErr(t.p.Ver)
		case "panic":
			panic("boom in " + t.p.Scheme)
		case "reenter":
			nested(t.p.Ops)
		}
	}
	return t.out(in), nil
}

// nested runs operations on behalf of a callback.
func nested(ops []Op) {
	task := simrt.Self()
	if task < 0 || task >= len(st.cur) {
		return
	}
	outer := st.cur[task]
	depth := 0
	for r := outer; r != nil && len(r.Nested) > 0; r = r.Nested[len(r.Nested)-1] {
		depth++
	}
	if outer == nil {
		return
	}
	if len(outer.Op.Id) > 40 {
		return
	}
	for i := range ops {
		op := ops[i]
		op.Id = outer.Op.Id + "+"
		rec := &Rec{Task: task, Idx: -1, Op: &op}
		outer.Nested = append(outer.Nested, rec)
		st.cur[task] = rec
		st.do(rec)
		st.cur[task] = outer
	}
}

// traceFn builds a trace callback.
func traceFn(op *Op) func(hangulize.Trace) {
	mode, n, ops := op.Mode, op.N, op.Ops
	only := ""
	if op.T != nil {
		only = op.T.Only
	}
	return func(t hangulize.Trace) {
		r := curRec()
		if r == nil {
			return
		}
		ev := fmt.Sprintf("%s|%q|%s", t.Step, t.Word, t.Why)
		if t.Rule != nil {
			text := fmt.Sprintf("|%d %s", t.Rule.ID, t.Rule)
			ev += text
			r.rules = append(r.rules, ruleRef{t.Rule, text})
		}
		r.steps = append(r.steps, t)
		if n := len(r.cbs); n == 0 || r.cbs[n-1] != op {
			r.cbs = append(r.cbs, op)
		}
		r.Trace = append(r.Trace, ev)
		if len(r.Trace) == n && (only == "" || r.Op.Id == only) {
			switch mode {
			case "panic":
				panic("boom in trace")
			case "reenter":
				nested(ops)
			}
		}
	}
}

func (s *St) h(i int) hangulize.Hangulizer {
	if i < 0 || i >= len(s.hs) {
		return nil
	}
	return s.hs[i]
}

// do performs an operation and fills its record. Panics propagate.
func (s *St) do(rec *Rec) {
	op := rec.Op
	rec.Inv = simrt.Seq()
	s0 := simrt.Steps()
	defer func() {
		rec.Ret = simrt.Seq()
		rec.Steps = simrt.Steps() - s0
	}()
	set := func(res string, err error) {
		rec.Res, rec.ErrKind = res, errKind(err)
		if err != nil {
			rec.Err = err.Error()
			for i, e := range []error{hangulize.ErrSpecNotFound, hangulize.ErrTranslitNotImported, hangulize.ErrTranslit} {
				if errors.Is(err, e) {
					rec.Is += "SNT"[i : i+1]
				}
			}
		}
		rec.Done = true
	}
	switch op.K {
	case "hz":
		rec.Need = langTr[op.Lang]
		set(hangulize.Hangulize(op.Lang, op.Word()))
	case "hh":
		if h := s.h(op.H); h != nil {
			rec.Need = h.Spec().Lang.Translit
			set(h.Hangulize(op.Word()))
		}
	case "load":
		sp, err := hangulize.LoadSpec(op.Lang)
		rec.Spec = sp
		rec.Bool = sp != nil
		set("", err)
	case "unload":
		hangulize.UnloadSpec(op.Lang)
		set("", nil)
	case "langs":
		l := hangulize.ListLangs()
		set(strings.Join(l, ","), nil)
		for i := range l {
			l[i] = "!" // the listing belongs to the caller
		}
	case "new":
		var sp *hangulize.Spec
		if op.Lang != "" {
			var err error
			sp, err = hangulize.LoadSpec(op.Lang)
			if err != nil {
				set("", err)
				return
			}
		} else if op.S < len(s.specs) {
			sp = s.specs[op.S]
		}
		if sp == nil {
			return
		}
		h := hangulize.New(sp)
		s.hs[op.H] = h
		rec.Bool = h.Spec() == sp && len(h.Translits()) == 0
		set("", nil)
	case "use":
		t := s.stub(op.T)
		if op.H == 0 {
			rec.Bool = hangulize.UseTranslit(t)
		} else if h := s.h(op.H); h != nil {
			rec.Bool = h.UseTranslit(t)
		} else {
			return
		}
		set("", nil)
	case "unuse":
		if op.H == 0 {
			rec.Bool = hangulize.UnuseTranslit(op.W)
		} else if h := s.h(op.H); h != nil {
			rec.Bool = h.UnuseTranslit(op.W)
		} else {
			return
		}
		set("", nil)
	case "list", "listmut":
		var m map[string]hangulize.Translit
		if op.H == 0 {
			m = hangulize.Translits()
		} else if h := s.h(op.H); h != nil {
			m = h.Translits()
		} else {
			return
		}
		rec.List = listOf(m)
		if op.K == "listmut" {
			for k := range m {
				delete(m, k)
			}
			m["s1"] = &stubT{&TPlan{Scheme: "s1", Ver: 99}}
			m["junk"] = &stubT{&TPlan{Scheme: "junk", Ver: 98}}
		} else if op.Mode == "keep" {
			s.lists[rec.Task] = m
		}
		set("", nil)
	case "relist": // the kept listing again
		rec.List = listOf(s.lists[rec.Task])
		set("", nil)
	case "install":
		if op.H == 0 {
			rec.Bool = translit.Install()
		} else if h := s.h(op.H); h != nil {
			rec.Bool = translit.Install(h)
		} else {
			return
		}
		set("", nil)
	case "trace":
		if h := s.h(op.H); h != nil {
			if op.Mode == "off" {
				h.Trace(nil)
			} else {
				h.Trace(traceFn(op))
			}
		}
		set("", nil)
	case "parse":
		sp, err := hangulize.ParseSpec(s.reader(op, rec))
		rec.Spec = sp
		rec.Bool = sp != nil
		set("", err)
	case "hsl":
		d, err := hsl.Parse(s.reader(op, rec))
		rec.Bool = d != nil
		set(hslFP(d), err)
	case "parsehz": // parse and use at once
		sp, err := hangulize.ParseSpec(s.reader(op, rec))
		if err != nil || sp == nil {
			set("", err)
			return
		}
		h := hangulize.New(sp)
		for _, t := range sp.Lang.Translit {
			h.UseTranslit(&stubT{&TPlan{Scheme: t, Ver: 1}})
		}
		h.Trace(traceFn(op))
		set(h.Hangulize(op.Word()))
	case "tr":
		t := stdTranslit(op.W)
		if t == nil {
			return
		}
		set(t.Transliterate(op.A[0]))
	case "examples": // every example of the spec that the Hangulizer uses
		if h := s.h(op.H); h != nil {
			var sb strings.Builder
			for _, e := range h.Spec().Test {
				res, err := h.Hangulize(e[0])
				fmt.Fprintf(&sb, "%q %s;", res, errKind(err))
			}
			set(sb.String(), nil)
		}
	default:
		if f := extraOps[op.K]; f != nil {
			f(s, rec, set)
		}
	}
}

var extraOps = map[string]func(s *St, rec *Rec, set func(string, error)){}

func stdTranslit(scheme string) hangulize.Translit {
	for _, t := range stdTs() {
		if t.Scheme() == scheme {
			return t
		}
	}
	return nil
}

func stdTs() []hangulize.Translit {
	if !stdReady {
		fmt.Fprintln(os.Stderr, "harness: the standard translits are not initialised")
		os.Exit(3)
	}
	return translit.Translits()
}

func listOf(m map[string]hangulize.Translit) []string {
	l := []string{}
	for k, v := range m {
		switch v := v.(type) {
		case *stubT:
			l = append(l, fmt.Sprintf("%s=%s#%d", k, v.p.Scheme, v.p.Ver))
		case stubV:
			l = append(l, fmt.Sprintf("%s=%s#%d", k, v.p.Scheme, v.p.Ver))
		case nil:
			l = append(l, k+"=nil")
		default:
			l = append(l, k+"=std")
		}
	}
	sort.Strings(l)
	return l
}

// planReader delivers a source as the plan says.
type planReader struct {
	src   string
	pos   int
	p     *RPlan
	cut   int
	reads int
	stall int
	fired bool
	rec   *Rec
}

var errReader = errors.New("simulated read error")

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func readErr(kind string) error {
	switch kind {
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "timeout":
		return timeoutErr{}
	case "wrapeof": // wraps io.EOF, but is not end of file
		return fmt.Errorf("connection lost: %w", io.EOF)
	case "closed":
		return io.ErrClosedPipe
	case "noprogress":
		return io.ErrNoProgress
	case "eintr":
		return &os.PathError{Op: "read", Path: "x", Err: syscall.EINTR}
	case "eagain":
		return syscall.EAGAIN
	case "deadline":
		return os.ErrDeadlineExceeded
	case "osclosed":
		return os.ErrClosed
	case "canceled":
		return context.Canceled
	case "shortbuf":
		return io.ErrShortBuffer
	case "eoftext":
		return errors.New("EOF")
	case "empty":
		return errors.New("")
	}
	return errReader
}

func (s *St) reader(op *Op, rec *Rec) io.Reader {
	src := s.src(op.S)
	if op.Lang != "" {
		src = langSrc[op.Lang]
	}
	if op.R == nil {
		return strings.NewReader(src)
	}
	return &planReader{src: src, p: op.R, rec: rec}
}

func (r *planReader) Read(b []byte) (int, error) {
	r.reads++
	r.rec.NReads = r.reads
	p := r.p
	if len(b) == 0 {
		return 0, nil
	}
	if p.ErrKind == "stall" && p.ErrAt > 0 && r.pos == min(p.ErrAt-1, len(r.src)) && r.stall < 150 {
		r.stall++
		return 0, nil
	}
	if r.fired {
		if p.OneShot {
			return 0, io.EOF
		}
		return 0, readErr(p.ErrKind)
	}
	if p.Empty > 0 && r.reads%(p.Empty+1) == 0 {
		return 0, nil
	}
	end := len(r.src)
	fails := p.ErrAt > 0
	if fails && p.ErrAt-1 < end {
		end = p.ErrAt - 1
	}
	n := len(b)
	if r.cut < len(p.Cuts) {
		if c := p.Cuts[r.cut]; c > 0 && c < n {
			n = c
		}
		r.cut++
	} else if len(p.Cuts) > 0 {
		r.cut = 0
		if c := p.Cuts[0]; c > 0 && c < n {
			n = c
			r.cut = 1
		}
	}
	if n > end-r.pos {
		n = end - r.pos
	}
	copy(b, r.src[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end {
		if fails {
			if n == 0 || p.ErrWith {
				r.fired = true
				return n, readErr(p.ErrKind)
			}
		} else if n == 0 || p.EOFWith {
			return n, io.EOF
		}
	}
	return n, nil
}

// hslFP is a canonical rendering of a document.
func hslFP(d hsl.HSL) string {
	if d == nil {
		return ""
	}
	var keys []string
	for k := range d {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	for _, k := range keys {
		sec := d[k]
		fmt.Fprintf(&sb, "[%s %T", k, sec)
		ps := sec.Pairs()
		var l []string
		for _, p := range ps {
			x := fmt.Sprintf(" %q->%q", p.Left(), p.Right())
			if _, ok := sec.(*hsl.ListSection); ok {
				x += fmt.Sprintf("@%d", p.Line())
			}
			l = append(l, x)
		}
		if _, ok := sec.(*hsl.DictSection); ok {
			sort.Strings(l)
		}
		sb.WriteString(strings.Join(l, "") + "]")
	}
	return sb.String()
}

// specFP is a canonical rendering of a spec, without its behaviour.
func specFP(s *hangulize.Spec) string {
	if s == nil {
		return "nil"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%q %q %q\n", s.Lang, s.Config, s.Test)
	var ks []string
	for k, v := range s.Macros {
		ks = append(ks, fmt.Sprintf("m %q=%q", k, v))
	}
	for k, v := range s.Vars {
		ks = append(ks, fmt.Sprintf("v %q=%q", k, v))
	}
	for k, v := range s.Normalize {
		ks = append(ks, fmt.Sprintf("n %q=%q", k, v))
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, "\n") + "\n")
	for _, l := range [][]hangulize.Rule{s.Rewrite, s.Transcribe} {
		for _, r := range l {
			fmt.Fprintf(&sb, "%d %s %s %q %q\n", r.ID, r, r.From.Explain(), string(r.From.Letters()), string(r.To.Letters()))
		}
		sb.WriteString("--\n")
	}
	fmt.Fprintf(&sb, "%d %x", len(s.Source), fnvs(s.Source))
	return sb.String()
}

func fnvs(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// guard runs an operation and records a panic.
func (s *St) guard(rec *Rec) {
	defer func() {
		if e := recover(); e != nil {
			rec.Panic = fmt.Sprint(e)
			if rec.Panic == "" {
				rec.Panic = "(empty)"
			}
			s.cur[rec.Task] = nil
		}
	}()
	s.cur[rec.Task] = rec
	s.do(rec)
	s.cur[rec.Task] = nil
}

// newSt starts a fresh process: package state is as after program start, the
// plan's specs are parsed and its setup operations done. setupTask runs in a
// world of its own.
func newSt(p *Plan, rep *Report) *St {
	simpool.Reset(int64(p.Pool)-1, p.Seed)
	newProcess(p.Cfg, p.needsStd())
	s := &St{p: p, recs: make([][]*Rec, 64), cur: make([]*Rec, 64), lists: make([]map[string]hangulize.Translit, 64)}
	st = s
	if len(p.Specs) == 0 && len(p.SpecB) == 0 && len(p.Setup) == 0 {
		return s
	}
	s.specs = make([]*hangulize.Spec, max(len(p.Specs), len(p.SpecB)))
	cfg := npCfg
	cfg.MapOrder, cfg.MapSeed, cfg.Proc = p.Cfg.MapOrder, p.Cfg.MapSeed, p.Cfg.Proc
	cfg.MaxSteps = 100_000_000
	res := simrt.Run(cfg, []func(){func() {
		for i := range s.specs {
			if p.unused[i] {
				continue
			}
			func() {
				defer func() { recover() }()
				sp, err := hangulize.ParseSpec(strings.NewReader(s.src(i)))
				if err == nil {
					s.specs[i] = sp
				}
			}()
		}
		s.runOps(0, p.Setup, "s")
	}})
	if rep != nil {
		rep.add(res)
		if res.Outcome != "done" {
			rep.fail("setup-"+res.Outcome, "sequential setup did not finish: "+res.Outcome+" "+res.Detail)
		}
	}
	s.recs[0] = nil
	return s
}

var stdReady bool

// newProcess gives all packages their initial state. It spares the standard
// translits, whose initialisation is slow, if they will not be used.
func newProcess(cfg simrt.Config, std bool) {
	mode := cfg.MapOrder
	if mode == "" {
		mode = "sorted"
	}
	simrt.InitOrder(mode, cfg.MapSeed)
	simrt.Start(cfg.Proc)
	simrt.ResetAll(func(path string) bool { return !std && strings.Contains(path, "/translit") })
	simrt.InitOrder("sorted", 0)
	stdReady = std
}

func (p *Plan) needsStd() bool {
	if p.std {
		return true
	}
	for _, l := range append([][]Op{p.Setup, p.After}, p.Tasks...) {
		if opsNeedStd(l) {
			return true
		}
	}
	return false
}

func opsNeedStd(ops []Op) bool {
	for i := range ops {
		switch ops[i].K {
		case "tr", "trmany", "install":
			return true
		}
		if opsNeedStd(ops[i].Ops) || ops[i].T != nil && opsNeedStd(ops[i].T.Ops) {
			return true
		}
	}
	return false
}

func (s *St) runOps(task int, ops []Op, prefix string) {
	for i := range ops {
		if ops[i].Id == "" {
			ops[i].Id = fmt.Sprintf("%s%d.%d", prefix, task, i)
		}
		rec := &Rec{Task: task, Idx: i, Op: &ops[i]}
		s.recs[task] = append(s.recs[task], rec)
		s.guard(rec)
	}
}

// space tells which kind of value the H of an operation means.
func (o *Op) space() string {
	switch o.K {
	case "patset", "patuse":
		return "pat"
	case "docset", "docuse":
		return "doc"
	}
	return "h"
}

// onlyFor reduces specs and setup to those that an operation depends on, so
// that a process with nothing but this operation can be made.
func (q *Plan) onlyFor(op *Op) {
	type key struct {
		space string
		h     int
	}
	need := map[key]bool{{"h", 0}: true}
	specs := map[int]bool{}
	var visit func(o *Op)
	visit = func(o *Op) {
		need[key{o.space(), o.H}] = true
		switch o.K {
		case "new":
			if o.Lang == "" {
				specs[o.S] = true
			}
		case "parse", "parsehz", "hsl", "docset":
			specs[o.S] = true
		}
		for i := range o.Ops {
			visit(&o.Ops[i])
		}
		if o.T != nil {
			for i := range o.T.Ops {
				visit(&o.T.Ops[i])
			}
		}
	}
	visit(op)
	kept := make([]bool, len(q.Setup))
	for more := true; more; {
		more = false
		for i := range q.Setup {
			if o := &q.Setup[i]; !kept[i] && need[key{o.space(), o.H}] {
				kept[i], more = true, true
				visit(o)
			}
		}
	}
	var setup []Op
	for i := range q.Setup {
		if k := q.Setup[i].K; kept[i] && k != "load" && k != "unload" && k != "langs" {
			setup = append(setup, q.Setup[i])
		}
	}
	q.Setup = setup
	q.Specs = append([]string(nil), q.Specs...)
	q.SpecB = append([][]byte(nil), q.SpecB...)
	q.unused = map[int]bool{}
	for i := 0; i < max(len(q.Specs), len(q.SpecB)); i++ {
		q.unused[i] = !specs[i]
	}
}

// runTasks runs the plan's tasks concurrently.
func (s *St) runTasks(cfg simrt.Config, tasks [][]Op) simrt.Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 150_000_000
	}
	for _, ops := range tasks {
		for i := range ops {
			if ops[i].K == "loop" {
				cfg.MaxSteps += int64(ops[i].N) * int64(len(ops[i].Ops)) * 20_000
			}
		}
	}
	for i := range s.recs {
		s.recs[i] = nil
		s.cur[i] = nil
	}
	fns := make([]func(), len(tasks))
	for i := range tasks {
		fns[i] = func() { s.runOps(i, tasks[i], "t") }
	}
	return simrt.Run(cfg, fns)
}

// all returns the records in task order.
func (s *St) all() (l []*Rec) {
	for _, r := range s.recs {
		l = append(l, r...)
	}
	return
}

// standard checks of how a world ended.
func (r *Report) world(res simrt.Result) bool {
	r.add(res)
	switch res.Outcome {
	case "done":
		if len(res.Leftover) > 0 {
			r.fail("leak", "goroutines left running after all calls returned: "+strings.Join(res.Leftover, "; "))
			return false
		}
	case "exit":
		r.fail("fatal", fmt.Sprintf("the process was ended: code %d %s", res.ExitCode, res.Detail))
		return false
	default:
		d := res.Detail
		if res.Outcome == "deadlock" {
			d = strings.Join(res.Leftover, "; ")
		}
		r.fail(res.Outcome, res.Outcome+": "+d)
		return false
	}
	if res.Races > 0 {
		r.fail("race", fmt.Sprintf("%d data race report(s):\n%s", res.Races, raceText()))
		return false
	}
	return true
}

// solo computes what an operation yields when it runs alone in a fresh process
// with the plan's setup.
func solo(p *Plan, op *Op, extra []Op) *Rec {
	q := &Plan{Specs: p.Specs, SpecB: p.SpecB, Tabs: p.Tabs, Setup: append(append([]Op(nil), p.Setup...), extra...)}
	q.onlyFor(op)
	q.std = opsNeedStd([]Op{*op})
	q.Cfg = npCfg
	saved := st
	s := newSt(q, nil)
	o := *op
	tasks := [][]Op{{o}}
	cfg := npCfg
	cfg.MaxSteps = 150_000_000
	res := s.runTasks(cfg, tasks)
	var rec *Rec
	if len(s.recs[0]) > 0 {
		rec = s.recs[0][0]
	} else {
		rec = &Rec{Op: op}
	}
	if res.Outcome != "done" {
		rec.Panic = "outcome " + res.Outcome
	}
	st = saved
	return rec
}
