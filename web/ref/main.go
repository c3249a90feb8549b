//go:build go1.23

// Command verifref answers what single, undisturbed calls return: the reference
// for the browser build. One JSON request per line, one JSON answer per line.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"os"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"
)

type request struct {
	Cmd   string
	Lang  string
	Word  string
	Ans   map[string]*string // scheme -> answer, nil for a failure
	Trace bool
}

type rule struct {
	ID   int    `json:"id"`
	From string `json:"from"`
	To   string `json:"to"`
}

type event struct {
	Step string `json:"step"`
	Word string `json:"word"`
	Why  string `json:"why"`
	Rule *rule  `json:"rule"`
}

type answer struct {
	Result string  `json:"result"`
	Err    string  `json:"err"`
	Trace  []event `json:"trace"`
}

type stub struct {
	scheme string
	ans    *string
}

func (s stub) Scheme() string { return s.scheme }
func (s stub) Load() error    { return nil }
func (s stub) Transliterate(string) (string, error) {
	if s.ans == nil {
		return "", errors.New("stub")
	}
	return *s.ans, nil
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<26)
	out := bufio.NewWriter(os.Stdout)
	for in.Scan() {
		var rs []request
		if err := json.Unmarshal(in.Bytes(), &rs); err != nil {
			panic(err)
		}
		var as []any
		for _, r := range rs {
			as = append(as, do(r))
		}
		b, err := json.Marshal(as)
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
		out.Flush()
	}
}

func do(r request) any {
	switch r.Cmd {
	case "langs":
		type lang struct {
			Lang      string   `json:"lang"`
			Translits []string `json:"translits"`
			Words     []string `json:"words"`
		}
		var l []lang
		for _, id := range hangulize.ListLangs() {
			s, _ := hangulize.LoadSpec(id)
			x := lang{Lang: id, Translits: s.Lang.Translit, Words: []string{}}
			if x.Translits == nil {
				x.Translits = []string{}
			}
			for _, t := range s.Test {
				x.Words = append(x.Words, t[0])
			}
			l = append(l, x)
		}
		return l
	case "translit": // the standard translit r.Lang on r.Word
		var a answer
		h := hangulize.New(&hangulize.Spec{})
		translit.Install(h)
		t, ok := h.Translits()[r.Lang]
		if !ok {
			a.Err = "no such translit"
			return a
		}
		if l, ok := t.(interface{ Load() error }); ok {
			l.Load()
		}
		res, err := t.Transliterate(r.Word)
		a.Result = res
		if err != nil {
			a.Err = err.Error()
		}
		return a
	}
	var a answer
	s, err := hangulize.LoadSpec(r.Lang)
	if err != nil {
		a.Err = err.Error()
		return a
	}
	h := hangulize.New(s)
	if r.Cmd == "real" {
		translit.Install(h)
	}
	for k, v := range r.Ans {
		h.UseTranslit(stub{k, v})
	}
	if r.Trace {
		a.Trace = []event{}
		h.Trace(func(t hangulize.Trace) {
			e := event{Step: t.Step, Word: t.Word, Why: t.Why}
			if t.Rule != nil {
				e.Rule = &rule{t.Rule.ID, t.Rule.From.String(), t.Rule.To.String()}
			}
			a.Trace = append(a.Trace, e)
		})
	}
	a.Result, err = h.Hangulize(r.Word)
	if err != nil {
		a.Err = err.Error()
		a.Result = ""
	}
	return a
}
