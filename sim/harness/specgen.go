//go:build go1.23

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hangulize/hangulize"
)

// Lang data read once, before any run.
var (
	langs     []string
	langWords = map[string][]string{}
	langSrc   = map[string]string{}
	langTr    = map[string][]string{}
	langSize  = map[string]int{}
	smallLang []string // cheap to load
)

func initLangs() {
	langs = hangulize.ListLangs()
	for _, l := range langs {
		s, err := hangulize.LoadSpec(l)
		if err != nil {
			continue
		}
		for _, t := range s.Test {
			if len(t[0]) < 30 {
				langWords[l] = append(langWords[l], strings.Clone(t[0]))
			}
		}
		langSrc[l] = s.Source
		langTr[l] = append([]string(nil), s.Lang.Translit...)
		langSize[l] = len(s.Rewrite) + len(s.Transcribe)
	}
	smallLang = append([]string(nil), langs...)
	sort.Slice(smallLang, func(i, j int) bool { return len(langSrc[smallLang[i]]) < len(langSrc[smallLang[j]]) })
	if len(smallLang) > 16 {
		smallLang = smallLang[:16]
	}
}

// related groups languages whose names or scripts invite mix-ups.
var related = [][]string{
	{"por", "por-br"}, {"jpn", "jpn-ck"}, {"kat-1", "kat-2"}, {"bul", "rus", "ukr", "mkd"},
	{"ces", "slk"}, {"est", "fin"}, {"ita", "ron", "spa"}, {"lat", "ell", "grc"},
}

// genLangs picks n languages, often related ones.
func genLangs(r *Rng, n int) []string {
	var l []string
	if r.P(0.4) {
		for _, x := range pick(r, related) {
			if langSrc[x] != "" {
				l = append(l, x)
			}
		}
	}
	for len(l) < n {
		if r.P(0.6) {
			l = append(l, pick(r, smallLang))
		} else {
			l = append(l, pick(r, langs))
		}
	}
	for i := len(l) - 1; i > 0; i-- {
		j := r.N(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l[:n]
}

// genWord makes a word for a language: an example, several of them, or a
// damaged one.
func genWord(r *Rng, lang string) string {
	ws := langWords[lang]
	if len(ws) == 0 {
		ws = []string{"a", "gloria", "hello"}
	}
	w := pick(r, ws)
	switch lang {
	case "bul", "mkd", "rus", "ukr":
		if r.P(0.25) {
			return cyrLatinWord(r)
		}
	}
	switch r.N(9) {
	case 0:
		w += r.Of(" ", ", ", "! ", "-", " «", "。", "\n") + pick(r, ws)
	case 1:
		w = strings.ToUpper(w)
	case 2:
		rs := []rune(w)
		if len(rs) > 1 {
			i := r.N(len(rs))
			rs = append(rs[:i], rs[i+1:]...)
			w = string(rs)
		}
	case 3:
		w += pick(r, ws)
	case 4:
		other := pick(r, langs)
		if o := langWords[other]; len(o) > 0 {
			w = w + " " + pick(r, o)
		}
	}
	if len(w) > 60 {
		rs := []rune(w)
		if len(rs) > 30 {
			w = string(rs[:30])
		}
	}
	if r.P(0.02) {
		for n := longLen(r); n > 0; n -= len(w) / 2 {
			w += r.Of("", " ", "-", ", ") + pick(r, ws)
		}
	}
	if w == "" {
		w = "a"
	}
	return w
}

// SpecOpt steers the generator of small specs.
type SpecOpt struct {
	Translits []string
	Overlap   bool // overlapping macros, normalizations
	Rules     int
	Pad       int // further rules, which match no word
	Tests     int
	Script    string
	NoTest    bool
}

const alpha = "abcde"

func lit(r *Rng, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte(alpha[r.N(len(alpha))])
	}
	return sb.String()
}

var jamos = []string{"ㄱㅏ", "ㄴㅗ", "ㄷㅣ", "-ㄴ", "-ㄹ", "ㅁㅜ", "ㅏ", "-ㅇ", "ㅅㅓ", "ㅎ", "ㅂㅐ-ㄱ", "ㅗ"}

// genSpec writes the source of a small valid spec.
func genSpec(r *Rng, o SpecOpt) string {
	var sb strings.Builder
	q := func(s string) string { return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"` }
	script := o.Script
	if script == "" {
		script = "Latn"
	}
	fmt.Fprintf(&sb, "lang:\n    id = \"x%d\"\n    codes = \"xx\", \"xxx\"\n    english = \"X\"\n    korean = \"엑스\"\n    script = %s\n", r.N(100), q(script))
	if len(o.Translits) > 0 {
		var l []string
		for _, t := range o.Translits {
			l = append(l, q(t))
		}
		fmt.Fprintf(&sb, "    translit = %s\n", strings.Join(l, ", "))
	}
	if r.P(0.5) {
		sb.WriteString("\nconfig:\n    authors = \"a\", \"b\"\n    stage = \"draft\"\n")
	}
	// vars
	type vr struct {
		name string
		vals []string
	}
	var vars []vr
	for i, n := 0, r.N(3); i < n; i++ {
		v := vr{name: string(rune('v' + i))}
		k := r.In(2, 4)
		seen := map[string]bool{}
		for len(v.vals) < k {
			x := lit(r, 1+r.N(2)*r.N(2))
			if !seen[x] {
				seen[x] = true
				v.vals = append(v.vals, x)
			}
		}
		vars = append(vars, v)
	}
	var macros [][2]string
	if len(vars) > 0 && r.P(0.7) {
		macros = append(macros, [2]string{"@", "<" + vars[0].name + ">"})
		if o.Overlap {
			macros = append(macros, [2]string{"@@", "<" + vars[len(vars)-1].name + ">" + lit(r, 1)})
			if r.P(0.5) {
				macros = append(macros, [2]string{"@a", lit(r, 2)})
			}
		}
	}
	if o.Overlap && r.P(0.7) {
		macros = append(macros, [2]string{"%", lit(r, 1)}, [2]string{"%%", lit(r, 2)}, [2]string{"%b", lit(r, 1) + lit(r, 1)})
	} else if r.P(0.3) {
		macros = append(macros, [2]string{"%", lit(r, 2)})
	}
	if len(macros) > 0 {
		sb.WriteString("\nmacros:\n")
		for _, m := range macros {
			fmt.Fprintf(&sb, "    %s = %s\n", q(m[0]), q(m[1]))
		}
	}
	if len(vars) > 0 {
		sb.WriteString("\nvars:\n")
		for _, v := range vars {
			var l []string
			for _, x := range v.vals {
				l = append(l, q(x))
			}
			fmt.Fprintf(&sb, "    %s = %s\n", q(v.name), strings.Join(l, ", "))
		}
	}
	if o.Overlap || r.P(0.5) {
		sb.WriteString("\nnormalize:\n")
		froms := []string{"é", "éa", "ab", "a", "abc", "ü", "üü", "E", "ba", "bab", "c", "cd", "aÉ", "d", "de"}
		if !o.Overlap {
			froms = []string{"é", "ü", "ö", "å"}
		}
		tos := []string{"a", "b", "c", "d", "e", "ab", "É"}
		used := map[string]bool{}
		ut := map[string]bool{}
		for i, n := 0, r.In(1, 5); i < n; i++ {
			to := pick(r, tos)
			if ut[to] {
				continue
			}
			ut[to] = true
			var l []string
			for j, k := 0, r.In(1, 3); j < k; j++ {
				f := pick(r, froms)
				if (used[f] && !o.Overlap) || f == to {
					continue
				}
				used[f] = true
				l = append(l, q(f))
			}
			if len(l) > 0 {
				fmt.Fprintf(&sb, "    %s = %s\n", q(to), strings.Join(l, ", "))
			}
		}
	}
	n := o.Rules
	if n == 0 {
		n = r.In(1, 6)
	}
	pat := func() (string, []string) {
		var core []string
		var used []string
		look := func() string {
			s := lit(r, 1)
			switch r.N(4) {
			case 0:
				s = s + "|" + lit(r, 1)
			case 1:
				if len(macros) > 0 && macros[0][0] == "@" {
					s = "@"
					used = append(used, "")
				}
			}
			if r.P(0.3) {
				s = "~" + s
			}
			return "{" + s + "}"
		}
		pre, post := "", ""
		switch r.N(6) {
		case 0:
			pre = "^"
		case 1:
			pre = look()
		case 2:
			pre = "^^"
		}
		for i, k := 0, r.In(1, 2); i < k; i++ {
			if len(vars) > 0 && r.P(0.4) {
				v := pick(r, vars)
				core = append(core, "<"+v.name+">")
				used = append(used, v.name)
			} else if len(macros) > 0 && r.P(0.3) {
				m := pick(r, macros)
				core = append(core, m[0])
				used = append(used, "")
			} else {
				core = append(core, lit(r, 1))
			}
		}
		switch r.N(6) {
		case 0:
			post = "$"
		case 1:
			post = look()
		}
		return pre + strings.Join(core, "") + post, used
	}
	repl := func(used []string) string {
		if len(used) == 1 && used[0] != "" && r.P(0.6) {
			return "<" + pick(r, vars).name + ">"
		}
		switch r.N(5) {
		case 0:
			return ""
		case 1:
			return lit(r, 1) + "{}"
		case 2:
			return "," + lit(r, 1)
		}
		return lit(r, r.In(1, 2))
	}
	pad := func(n int) {
		for ; n > 0; n-- {
			fmt.Fprintf(&sb, "    \"z%dz\" -> \"zz\"\n", n)
		}
	}
	sb.WriteString("\nrewrite:\n")
	padAt := -1
	if o.Pad > 0 {
		padAt = r.N(n)
	}
	for i := 0; i < n; i++ {
		if i == padAt {
			pad(o.Pad)
		}
		p, used := pat()
		fmt.Fprintf(&sb, "    %s -> %s\n", q(p), q(repl(used)))
	}
	sb.WriteString("\ntranscribe:\n")
	for i, m := 0, r.In(2, 6); i < m; i++ {
		if i == 1 {
			pad(o.Pad)
		}
		p, _ := pat()
		fmt.Fprintf(&sb, "    %s -> %s\n", q(p), q(pick(r, jamos)))
	}
	for _, c := range alpha {
		if r.P(0.7) {
			fmt.Fprintf(&sb, "    %s -> %s\n", q(string(c)), q(pick(r, jamos)))
		}
	}
	if o.Tests > 0 {
		sb.WriteString("\ntest:\n")
		for i := 0; i < o.Tests; i++ {
			fmt.Fprintf(&sb, "    %s -> %s\n", q(genSmallWord(r)), q("가"))
		}
	}
	return sb.String()
}

// genSmallWord makes a word over the alphabet of the generated specs.
// longLen is a length of an unusually long word.
func longLen(r *Rng) int { return r.In(20, []int{40, 80, 150, 300}[r.N(4)]) }

func genSmallWord(r *Rng) string {
	var sb strings.Builder
	n := r.In(1, 8)
	if r.P(0.03) {
		n = longLen(r)
	}
	for i := 0; i < n; i++ {
		switch r.N(12) {
		case 0:
			sb.WriteString(r.Of("é", "ü", "É", "E", "éa", "üü"))
		case 1:
			sb.WriteString(r.Of(" ", ",", "!", "x", "1", "한", "A"))
		default:
			sb.WriteString(lit(r, 1))
		}
	}
	return sb.String()
}

// tweakSpec changes a generated spec a little so that two specs, with the same
// language ID, are almost the same: it changes a value, or drops or copies a
// line, in one or two places.
func tweakSpec(r *Rng, src string) string {
	lines := strings.Split(src, "\n")
	for n := r.In(1, 2); n > 0; n-- {
		var rules, dicts, other []int
		sec := ""
		for i, l := range lines {
			switch {
			case l != "" && l[0] != ' ':
				sec = l
			case strings.Contains(l, "->"):
				rules = append(rules, i)
			case !strings.Contains(l, "="):
			case sec == "macros:" || sec == "vars:" || sec == "normalize:":
				dicts = append(dicts, i)
			case strings.Contains(l, "translit") || strings.Contains(l, "authors") || strings.Contains(l, "stage"):
				other = append(other, i)
			}
		}
		ids := rules
		if k := r.N(8); k < 4 && len(dicts) > 0 {
			ids = dicts
		} else if k == 4 && len(other) > 0 {
			ids = other
		}
		if len(ids) == 0 {
			continue
		}
		i := pick(r, ids)
		l := lines[i]
		arrow := strings.Index(l, "->")
		sep, w := arrow, 2
		if arrow < 0 {
			sep, w = strings.Index(l, "="), 1
		}
		switch r.N(5) {
		case 0:
			// A variable without values would match the empty string.
			if arrow >= 0 && len(rules) > 1 || arrow < 0 && !strings.Contains(src, "<"+strings.Trim(strings.TrimSpace(l[:sep]), "\"")+">") {
				lines = append(lines[:i], lines[i+1:]...)
			}
		case 1:
			if arrow >= 0 {
				j := pick(r, rules)
				lines[i], lines[j] = lines[j], lines[i]
				break
			}
			fallthrough
		default:
			// another value, or one value less
			vals := strings.Split(strings.TrimSpace(l[sep+w:]), ", ")
			k := r.N(len(vals))
			v := lit(r, r.In(1, 2))
			if arrow >= 0 && r.P(0.5) {
				v = r.Of("ㅏ", "ㅗ", "e", "ㄱ", "-ㅇ", "")
			}
			if strings.Contains(l, "translit") {
				v = r.Of("s1", "s2")
			}
			if strings.Contains(vals[k], "<") {
				v = strings.Trim(vals[k], "\"") + lit(r, 1)
			}
			vals[k] = `"` + v + `"`
			lines[i] = l[:sep+w] + " " + strings.Join(vals, ", ")
		}
	}
	return strings.Join(lines, "\n")
}
