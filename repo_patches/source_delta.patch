From cbe28e143eb6d8243eb5a04bf724b5c0ef095e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 01/25] fix: guard the cache of bundled specs with a mutex

LoadSpec and UnloadSpec read and wrote the map without synchronization, so
concurrent transcriptions raced (fatal error: concurrent map writes), and two
first loads of a language returned different specs.
---
 specs.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/specs.go b/specs.go
index ea2d727..a155513 100644
--- a/specs.go
+++ b/specs.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/pkg/errors"
 )
@@ -37,12 +38,18 @@ func ListLangs() []string {
 // Cached specs.
 var specs = make(map[string]*Spec)
 
+// specsMu guards specs.
+var specsMu sync.Mutex
+
 // LoadSpec finds a bundled spec by the given language name.
 // Once it loads a spec, it will cache the spec.
 func LoadSpec(lang string) (*Spec, error) {
 	var spec *Spec
 
+	specsMu.Lock()
 	spec, ok := specs[lang]
+	specsMu.Unlock()
+
 	if ok {
 		// already loaded
 		return spec, nil
@@ -62,6 +69,14 @@ func LoadSpec(lang string) (*Spec, error) {
 		panic(fmt.Errorf("bundled spec '%s': %w", lang, err))
 	}
 
+	specsMu.Lock()
+	defer specsMu.Unlock()
+
+	if cached, ok := specs[lang]; ok {
+		// Another goroutine has loaded it in the meantime.
+		return cached, nil
+	}
+
 	// Cache it.
 	specs[lang] = spec
 	return spec, nil
@@ -69,5 +84,8 @@ func LoadSpec(lang string) (*Spec, error) {
 
 // UnloadSpec flushes a cached spec to get free memory.
 func UnloadSpec(lang string) {
+	specsMu.Lock()
+	defer specsMu.Unlock()
+
 	delete(specs, lang)
 }
-- 
2.43.0


From 7eef6f8107bbf8ae5e79dd3853e3e8b7e341a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 02/25] fix: guard the translit registries with a mutex

The registries are maps which were read by every transcription and written by
UseTranslit and UnuseTranslit without synchronization.
---
 translit.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/translit.go b/translit.go
index 7a821e7..e932aff 100644
--- a/translit.go
+++ b/translit.go
@@ -1,5 +1,7 @@
 package hangulize
 
+import "sync"
+
 // Translit is an interface for a transliterator. It may convert a word from
 // one script to another script. It also may guess phonograms from the spelling
 // based on lexical analysis.
@@ -14,8 +16,14 @@ type Translit interface {
 // translitRegistry is a registry holding Translits.
 type translitRegistry map[string]Translit
 
+// translitMu guards every translitRegistry. No user code runs while it is held.
+var translitMu sync.RWMutex
+
 // Detach copies the registry as map[string]Translit.
 func (r translitRegistry) Detach() map[string]Translit {
+	translitMu.RLock()
+	defer translitMu.RUnlock()
+
 	copied := make(map[string]Translit, len(r))
 	for m, t := range r {
 		copied[m] = t
@@ -27,6 +35,9 @@ func (r translitRegistry) Detach() map[string]Translit {
 func (r translitRegistry) Add(t Translit) bool {
 	scheme := t.Scheme()
 
+	translitMu.Lock()
+	defer translitMu.Unlock()
+
 	if _, ok := r[scheme]; ok {
 		// already exists
 		return false
@@ -38,6 +49,9 @@ func (r translitRegistry) Add(t Translit) bool {
 
 // Remove deregisters a Translit from the registry.
 func (r translitRegistry) Remove(scheme string) bool {
+	translitMu.Lock()
+	defer translitMu.Unlock()
+
 	_, ok := r[scheme]
 	if ok {
 		delete(r, scheme)
-- 
2.43.0


From cd32110d0fb4a99f6ead00807c914d755624e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 03/25] fix: guard the trace function of a Hangulizer

Trace may be called while other goroutines transcribe by the same Hangulizer.
---
 hangulize.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hangulize.go b/hangulize.go
index 59707fa..a93b681 100644
--- a/hangulize.go
+++ b/hangulize.go
@@ -1,5 +1,7 @@
 package hangulize
 
+import "sync"
+
 // Hangulize transcribes a non-Korean word into Hangul, which is the Korean
 // alphabet.
 //
@@ -12,7 +14,7 @@ func Hangulize(lang string, word string) (string, error) {
 		return word, err
 	}
 
-	h := &hangulizer{spec, defaultTranslitRegistry, nil}
+	h := &hangulizer{spec: spec, translitRegistry: defaultTranslitRegistry}
 	return h.Hangulize(word)
 }
 
@@ -41,12 +43,14 @@ type Hangulizer interface {
 type hangulizer struct {
 	spec             *Spec
 	translitRegistry translitRegistry
-	traceFunc        func(Trace)
+
+	traceMu   sync.RWMutex // guards traceFunc
+	traceFunc func(Trace)
 }
 
 // New creates a hangulizer for a Spec.
 func New(spec *Spec) Hangulizer {
-	return &hangulizer{spec, make(translitRegistry), nil}
+	return &hangulizer{spec: spec, translitRegistry: make(translitRegistry)}
 }
 
 // Spec returns the underlying Spec.
@@ -71,11 +75,18 @@ func (h *hangulizer) UnuseTranslit(scheme string) bool {
 
 // Trace registers a tracing function.
 func (h *hangulizer) Trace(fn func(Trace)) {
+	h.traceMu.Lock()
+	defer h.traceMu.Unlock()
+
 	h.traceFunc = fn
 }
 
 // Hangulize transcribes a non-Korean word into Hangul.
 func (h *hangulizer) Hangulize(word string) (string, error) {
-	p := newProcedure(h.Spec(), h.Translits(), h.traceFunc)
+	h.traceMu.RLock()
+	traceFunc := h.traceFunc
+	h.traceMu.RUnlock()
+
+	p := newProcedure(h.Spec(), h.Translits(), traceFunc)
 	return p.forward(word)
 }
-- 
2.43.0


From 5a38fef3d25aff627d90384a697c91333a30e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 04/25] fix: create the furigana tokenizer once

Concurrent first uses of the shared translit raced on the lazily created
tokenizer.
---
 translit/furigana/furigana.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/translit/furigana/furigana.go b/translit/furigana/furigana.go
index a159318..0233333 100644
--- a/translit/furigana/furigana.go
+++ b/translit/furigana/furigana.go
@@ -6,6 +6,8 @@ converted to Kana. This Translit uses IPADIC in Kagome to analyze Kanji.
 package furigana
 
 import (
+	"sync"
+
 	"github.com/hangulize/hangulize"
 	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
 	"golang.org/x/text/unicode/norm"
@@ -17,20 +19,21 @@ var T hangulize.Translit = &furigana{}
 // ----------------------------------------------------------------------------
 
 type furigana struct {
+	once   sync.Once
 	kagome *kagome.Tokenizer
 }
 
-func (furigana) Scheme() string {
+func (*furigana) Scheme() string {
 	return "furigana"
 }
 
 // ensureKagome caches a Kagome tokenizer because it is expensive.
 func (p *furigana) ensureKagome() *kagome.Tokenizer {
-	if p.kagome == nil {
+	p.once.Do(func() {
 		// It may take a while.
 		k := kagome.New()
 		p.kagome = &k
-	}
+	})
 	return p.kagome
 }
 
-- 
2.43.0


From edc38b2d6e450fa7ec873436da41c7c46864fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 05/25] fix: build the Cyrillic replacers in a fixed order

Sources such as "e" and "e0" overlap, so what a transliteration gave
depended on the iteration order of the map.
---
 translit/cyrillic/cyrillic.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/translit/cyrillic/cyrillic.go b/translit/cyrillic/cyrillic.go
index 3d6e059..a58dfb6 100644
--- a/translit/cyrillic/cyrillic.go
+++ b/translit/cyrillic/cyrillic.go
@@ -2,6 +2,7 @@ package cyrillic
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hangulize/hangulize"
@@ -25,9 +26,21 @@ func mustNew(country string) hangulize.Translit {
 		panic(fmt.Errorf("cyrillic: invalid country: %s", country))
 	}
 
-	oldnew := make([]string, 0, len(mapping.ToCyrillic)*2)
-	for src, dst := range mapping.ToCyrillic {
-		oldnew = append(oldnew, src, dst)
+	// Some sources are prefixes of others. The replacer prefers the earlier one.
+	srcs := make([]string, 0, len(mapping.ToCyrillic))
+	for src := range mapping.ToCyrillic {
+		srcs = append(srcs, src)
+	}
+	sort.Slice(srcs, func(i, j int) bool {
+		if len(srcs[i]) != len(srcs[j]) {
+			return len(srcs[i]) > len(srcs[j])
+		}
+		return srcs[i] < srcs[j]
+	})
+
+	oldnew := make([]string, 0, len(srcs)*2)
+	for _, src := range srcs {
+		oldnew = append(oldnew, src, mapping.ToCyrillic[src])
 	}
 	repl := strings.NewReplacer(oldnew...)
 
-- 
2.43.0


From 86fbaeceb647cc187485637ca1e85cd2958565e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 06/25] fix: expand macros in a fixed order

With macros that are prefixes of one another, the expansion depended on the
iteration order of the map.
---
 pkg/hre/macro.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/hre/macro.go b/pkg/hre/macro.go
index 43f67ae..b286eca 100644
--- a/pkg/hre/macro.go
+++ b/pkg/hre/macro.go
@@ -1,19 +1,28 @@
 package hre
 
 import (
+	"sort"
 	"strings"
 )
 
 // expandMacros replaces macro sources to corresponding targets.
 func expandMacros(expr string, macros map[string]string) string {
-	args := make([]string, len(macros)*2)
+	// A macro source may be a prefix of another one. The replacer prefers the
+	// earlier one.
+	srcs := make([]string, 0, len(macros))
+	for src := range macros {
+		srcs = append(srcs, src)
+	}
+	sort.Slice(srcs, func(i, j int) bool {
+		if len(srcs[i]) != len(srcs[j]) {
+			return len(srcs[i]) > len(srcs[j])
+		}
+		return srcs[i] < srcs[j]
+	})
 
-	i := 0
-	for src, dst := range macros {
-		args[i] = src
-		i++
-		args[i] = dst
-		i++
+	args := make([]string, 0, len(srcs)*2)
+	for _, src := range srcs {
+		args = append(args, src, macros[src])
 	}
 
 	rep := strings.NewReplacer(args...)
-- 
2.43.0


From 8c628edabd2d9b711bddffcfb739a69e69030456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 07/25] fix: normalize letters in a fixed order

With normalizations that overlap, the result depended on the iteration order
of the map.
---
 spec.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/spec.go b/spec.go
index 3a97367..8213c3b 100644
--- a/spec.go
+++ b/spec.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -165,11 +166,30 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	puncts := collectPuncts(rewrite, transcribe)
 
 	// custom normalization
-	var args []string
+	//
+	// A letter to be normalized may be a prefix of another one. The replacer
+	// prefers the earlier one.
+	type fromTo struct{ from, to string }
+	var fromTos []fromTo
 	for to, froms := range normalize {
 		for _, from := range froms {
-			args = append(args, from, to)
+			fromTos = append(fromTos, fromTo{from, to})
+		}
+	}
+	sort.Slice(fromTos, func(i, j int) bool {
+		a, b := fromTos[i], fromTos[j]
+		if len(a.from) != len(b.from) {
+			return len(a.from) > len(b.from)
 		}
+		if a.from != b.from {
+			return a.from < b.from
+		}
+		return a.to < b.to
+	})
+
+	var args []string
+	for _, x := range fromTos {
+		args = append(args, x.from, x.to)
 	}
 	normReplacer := strings.NewReplacer(args...)
 
-- 
2.43.0


From 64a42220e8522561d6060ef6fa0cc4c6726e5524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 08/25] fix: report read errors from the HSL parser

The lexer took any error of the reader as the end of the document, so a
failing reader led to a shortened spec without an error.
---
 pkg/hsl/lexer.go  | 12 +++++++++++-
 pkg/hsl/parser.go |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 3ab27d5..81c4fa0 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -14,11 +14,14 @@ type lexer struct {
 
 	line     int
 	prevLine int
+
+	// The error which stopped reading, other than io.EOF.
+	err error
 }
 
 // newLexer creates a Lexer.
 func newLexer(r io.Reader) *lexer {
-	return &lexer{bufio.NewReader(r), 1, 1}
+	return &lexer{r: bufio.NewReader(r), line: 1, prevLine: 1}
 }
 
 const eof = rune(0)
@@ -30,9 +33,16 @@ func (l lexer) Line() int {
 
 // read reads the rune on the buffer cursor.
 func (l *lexer) read() rune {
+	if l.err != nil {
+		return eof
+	}
+
 	ch, _, err := l.r.ReadRune()
 
 	if err != nil {
+		if err != io.EOF {
+			l.err = err
+		}
 		return eof
 	}
 
diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 50a4fe4..6c97f81 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -46,6 +46,9 @@ func (p *parser) parse() (HSL, error) {
 		if tok == Illegal {
 			return nil, fmt.Errorf("parse: %w: %s", errIllegalToken, lit)
 		} else if tok == EOF {
+			if p.lexer.err != nil {
+				return nil, fmt.Errorf("parse: %w", p.lexer.err)
+			}
 			break
 		} else if tok == Comment {
 			continue
-- 
2.43.0


From 6d68c69108e7b65c26941bcec5813a50d45bba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 09/25] fix: do not take a NUL character as the end of an HSL
 document

The rest of the document was dropped silently, and how much of it was kept as
the source depended on the sizes of the reads.
---
 pkg/hsl/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 81c4fa0..9672b69 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -24,7 +24,8 @@ func newLexer(r io.Reader) *lexer {
 	return &lexer{r: bufio.NewReader(r), line: 1, prevLine: 1}
 }
 
-const eof = rune(0)
+// eof is not a valid rune so it never appears in a text.
+const eof = rune(-1)
 
 // Line returns the current line number.
 func (l lexer) Line() int {
@@ -204,7 +205,7 @@ func (l *lexer) Scan() (token, string) {
 	ch := l.read()
 
 	if ch == eof {
-		return EOF, string(eof)
+		return EOF, ""
 	}
 	if ch == '\n' {
 		return Newline, "\n"
-- 
2.43.0


From 68b96f75c196b043f3991cc52c0cee175e177af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 10/25] fix: reject malformed HSL documents instead of hanging
 or panicking

A string without a closing quote made the lexer loop forever and fill the
memory. A lone hyphen and a duplicated key panicked.
---
 pkg/hsl/lexer.go  | 7 ++++++-
 pkg/hsl/parser.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 9672b69..75e3382 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -165,6 +165,10 @@ func (l *lexer) scanQuotedString() (token, string) {
 	for {
 		ch := l.read()
 
+		if ch == eof {
+			return Illegal, "unterminated string"
+		}
+
 		if ch == '"' {
 			if escaped {
 				escaped = false
@@ -194,7 +198,8 @@ func (l *lexer) scanArrow() (token, string) {
 	second := l.read()
 
 	if first != '-' || second != '>' {
-		panic("not ->")
+		l.unread()
+		return Illegal, string(first)
 	}
 
 	return Arrow, "->"
diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 6c97f81..a4bc4c9 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -103,7 +103,7 @@ func (p *parser) parse() (HSL, error) {
 			}
 
 			if err := section.addPair(lastString, values, line); err != nil {
-				panic(fmt.Errorf("failed to add pair: %w", err))
+				return nil, fmt.Errorf("failed to add pair: %w", err)
 			}
 
 			continue
-- 
2.43.0


From c24060fd1258dc6eabca95fb9eb5add28fa1de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 11/25] fix: return an error for malformed sections of a spec

ParseSpec panicked if a section was of the wrong kind or a pair had no right
value.
---
 spec.go | 77 +++++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 69 insertions(+), 8 deletions(-)

diff --git a/spec.go b/spec.go
index 8213c3b..546dac0 100644
--- a/spec.go
+++ b/spec.go
@@ -77,7 +77,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var lang Language
 
 	if sec, ok := h["lang"]; ok {
-		_lang, err := newLanguage(sec.(*hsl.DictSection))
+		dict, err := dictSection("lang", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		_lang, err := newLanguage(dict)
 
 		if err != nil {
 			return nil, err
@@ -90,7 +95,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var config Config
 
 	if sec, ok := h["config"]; ok {
-		_config, err := newConfig(sec.(*hsl.DictSection))
+		dict, err := dictSection("config", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		_config, err := newConfig(dict)
 
 		if err != nil {
 			return nil, err
@@ -103,7 +113,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var macros map[string]string
 
 	if sec, ok := h["macros"]; ok {
-		macros, err = sec.(*hsl.DictSection).Injective()
+		dict, err := dictSection("macros", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		macros, err = dict.Injective()
 
 		if err != nil {
 			return nil, err
@@ -113,19 +128,32 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// vars
 	var vars map[string][]string
 	if sec, ok := h["vars"]; ok {
-		vars = sec.(*hsl.DictSection).Map()
+		dict, err := dictSection("vars", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		vars = dict.Map()
 	}
 
 	// normalize
 	var normalize map[string][]string
 	if sec, ok := h["normalize"]; ok {
-		normalize = sec.(*hsl.DictSection).Map()
+		dict, err := dictSection("normalize", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		normalize = dict.Map()
 	}
 
 	// rewrite
 	var rewritePairs []hsl.Pair
 	if sec, ok := h["rewrite"]; ok {
-		rewritePairs = sec.(*hsl.ListSection).Pairs()
+		rewritePairs, err = listPairs("rewrite", sec)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	rewrite, err := newRules(rewritePairs, macros, vars)
@@ -136,7 +164,10 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// transcribe
 	var transcribePairs []hsl.Pair
 	if sec, ok := h["transcribe"]; ok {
-		transcribePairs = sec.(*hsl.ListSection).Pairs()
+		transcribePairs, err = listPairs("transcribe", sec)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	transcribe, err := newRules(transcribePairs, macros, vars)
@@ -147,7 +178,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// test
 	var test [][2]string
 	if sec, ok := h["test"]; ok {
-		for _, pair := range sec.(*hsl.ListSection).Pairs() {
+		testPairs, err := listPairs("test", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		for _, pair := range testPairs {
 			word := pair.Left()
 			result := pair.Right()[0]
 
@@ -230,6 +266,31 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	return &spec, nil
 }
 
+// dictSection returns the section if it is a dictionary.
+func dictSection(name string, sec hsl.Section) (*hsl.DictSection, error) {
+	dict, ok := sec.(*hsl.DictSection)
+	if !ok {
+		return nil, errors.Errorf("section must be a dictionary: %s", name)
+	}
+	return dict, nil
+}
+
+// listPairs returns the pairs of the section if it is a list and each of its
+// pairs has a right value.
+func listPairs(name string, sec hsl.Section) ([]hsl.Pair, error) {
+	list, ok := sec.(*hsl.ListSection)
+	if !ok {
+		return nil, errors.Errorf("section must be a list: %s", name)
+	}
+
+	for _, pair := range list.Pairs() {
+		if len(pair.Right()) == 0 {
+			return nil, errors.Errorf("no right value in section: %s: %v", name, pair)
+		}
+	}
+	return list.Pairs(), nil
+}
+
 // -----------------------------------------------------------------------------
 // "lang" section
 
-- 
2.43.0


From 5d372ac11b2548406fb2366aef7ad0ba17061d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 12/25] fix: transcribe every line of the standard input

A last line without a newline was dropped, a blank line ended the whole
transcription and a read error was taken as the end of the input.
---
 cmd/hangulize/main.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/cmd/hangulize/main.go b/cmd/hangulize/main.go
index 4376230..538472c 100644
--- a/cmd/hangulize/main.go
+++ b/cmd/hangulize/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bufio"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 
@@ -47,14 +48,13 @@ var rootCmd = &cobra.Command{
 
 func hangulizeStream(cmd *cobra.Command, args []string, h hangulize.Hangulizer) {
 	ch := make(chan string)
-	go readWords(ch, args)
-
-	for {
-		word := <-ch
-		if word == "" {
-			break
-		}
+	var readErr error
+	go func() {
+		defer close(ch)
+		readErr = readWords(ch, args)
+	}()
 
+	for word := range ch {
 		var (
 			result string
 			traces []hangulize.Trace
@@ -77,18 +77,29 @@ func hangulizeStream(cmd *cobra.Command, args []string, h hangulize.Hangulizer)
 		tracefmt.FprintTraces(cmd.OutOrStderr(), traces)
 		fmt.Fprintln(cmd.OutOrStdout(), result)
 	}
+
+	if readErr != nil {
+		cmd.PrintErrln(readErr)
+		os.Exit(1)
+	}
 }
 
-func readWords(ch chan<- string, args []string) {
+// readWords sends the words, which are not blank, to the channel.
+func readWords(ch chan<- string, args []string) error {
 	if len(args) == 1 {
 		reader := bufio.NewReader(os.Stdin)
 		for {
 			word, err := reader.ReadString('\n')
-			if err != nil {
-				break
+			if err != nil && err != io.EOF {
+				return err
 			}
 			word = strings.TrimSpace(word)
-			ch <- word
+			if word != "" {
+				ch <- word
+			}
+			if err == io.EOF {
+				return nil
+			}
 		}
 	} else {
 		for _, word := range args[1:] {
@@ -97,5 +108,5 @@ func readWords(ch chan<- string, args []string) {
 			}
 		}
 	}
-	ch <- ""
+	return nil
 }
-- 
2.43.0


From c0be1abf27dcf1ecd68583ee825837936f34f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 13/25] fix: fail if a result cannot be written to the standard
 output

---
 cmd/hangulize/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/hangulize/main.go b/cmd/hangulize/main.go
index 538472c..2b890e1 100644
--- a/cmd/hangulize/main.go
+++ b/cmd/hangulize/main.go
@@ -75,7 +75,10 @@ func hangulizeStream(cmd *cobra.Command, args []string, h hangulize.Hangulizer)
 		}
 
 		tracefmt.FprintTraces(cmd.OutOrStderr(), traces)
-		fmt.Fprintln(cmd.OutOrStdout(), result)
+		if _, err := fmt.Fprintln(cmd.OutOrStdout(), result); err != nil {
+			cmd.PrintErrln(err)
+			os.Exit(1)
+		}
 	}
 
 	if readErr != nil {
-- 
2.43.0


From ab11cc9a2224e30264a8600dd7acfa54a130465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 14/25] fix: count an example that cannot be transcribed as
 failed

The test command passed such an example if its expected result was empty.
---
 cmd/hangulize/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index c5b3876..52d3561 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -88,7 +88,7 @@ var testCmd = &cobra.Command{
 					}
 				}
 
-				if result == expected {
+				if err == nil && result == expected {
 					continue
 				}
 
-- 
2.43.0


From bd62530e28e04b59ad35c2e1ef88f42b2764fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 15/25] fix: write a complete coverage profile or fail

The profile kept the tail of a longer earlier file, write errors were ignored,
the order of the files was random, and a spec without a rewrite or transcribe
section panicked.
---
 cmd/hangulize/cover.go | 30 +++++++++++++++++++++++-------
 cmd/hangulize/test.go  | 10 ++++++----
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index 3c4af39..b39a282 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sort"
 
 	"github.com/hangulize/hangulize"
 	"github.com/hangulize/hangulize/pkg/hsl"
@@ -97,7 +98,13 @@ func (c *cover) WriteProfile(w io.Writer) error {
 		return fmt.Errorf("cover: %w", err)
 	}
 
+	names := make([]string, 0, len(c.names))
 	for name := range c.names {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
 		file, err := os.Open(name)
 		if err != nil {
 			return fmt.Errorf("cover: %w", err)
@@ -115,7 +122,10 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			return fmt.Errorf("cover: %w", err)
 		}
 
-		spec, _ := hangulize.ParseSpec(file)
+		spec, err := hangulize.ParseSpec(file)
+		if err != nil {
+			return fmt.Errorf("cover: %w", err)
+		}
 
 		if _, err := file.Seek(0, 0); err != nil {
 			return fmt.Errorf("cover: %w", err)
@@ -128,20 +138,26 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			cols = append(cols, col)
 		}
 
-		rewritePairs := hsl["rewrite"].Pairs()
+		if err := scanner.Err(); err != nil {
+			return fmt.Errorf("cover: %w", err)
+		}
+
 		for _, rule := range spec.Rewrite {
-			line := rewritePairs[rule.ID].Line()
+			line := hsl["rewrite"].Pairs()[rule.ID].Line()
 			col := cols[line-1]
 			covered := btoi(c.Covered(name, "Rewrite", rule.ID))
-			fmt.Fprintf(w, template, name, line, line, col, covered)
+			if _, err := fmt.Fprintf(w, template, name, line, line, col, covered); err != nil {
+				return fmt.Errorf("cover: %w", err)
+			}
 		}
 
-		transcribePairs := hsl["transcribe"].Pairs()
 		for _, rule := range spec.Transcribe {
-			line := transcribePairs[rule.ID].Line()
+			line := hsl["transcribe"].Pairs()[rule.ID].Line()
 			col := cols[line-1]
 			covered := btoi(c.Covered(name, "Transcribe", rule.ID))
-			fmt.Fprintf(w, template, name, line, line, col, covered)
+			if _, err := fmt.Fprintf(w, template, name, line, line, col, covered); err != nil {
+				return fmt.Errorf("cover: %w", err)
+			}
 		}
 	}
 
diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index 52d3561..f9d2b8a 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -110,16 +110,18 @@ var testCmd = &cobra.Command{
 		if testCoverProfile != "" {
 			file, err := os.OpenFile(
 				testCoverProfile,
-				os.O_WRONLY|os.O_CREATE,
+				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
 				0644,
 			)
 			if err != nil {
 				cmd.PrintErrln(err)
 				os.Exit(1)
 			}
-			defer file.Close()
-
-			if err := cover.WriteProfile(file); err != nil {
+			err = cover.WriteProfile(file)
+			if closeErr := file.Close(); err == nil {
+				err = closeErr
+			}
+			if err != nil {
 				cmd.PrintErrln(err)
 				os.Exit(1)
 			}
-- 
2.43.0


From ec579a6818e89670a8c4abaca061360887c6eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 16/25] fix: report the same invalid macro on every run

---
 pkg/hsl/structures.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/structures.go b/pkg/hsl/structures.go
index 6cb9426..861ec0d 100644
--- a/pkg/hsl/structures.go
+++ b/pkg/hsl/structures.go
@@ -2,6 +2,7 @@ package hsl
 
 import (
 	"fmt"
+	"sort"
 )
 
 // HSL is a decoding result of an HSL code.
@@ -155,7 +156,13 @@ func (s DictSection) Map() map[string][]string {
 func (s DictSection) Injective() (map[string]string, error) {
 	oneToOne := make(map[string]string, len(s.dict))
 
-	for _, pair := range s.dict {
+	// Report the first one of several invalid pairs.
+	pairs := s.Pairs()
+	sort.Slice(pairs, func(i, j int) bool {
+		return pairs[i].Left() < pairs[j].Left()
+	})
+
+	for _, pair := range pairs {
 		right := pair.Right()
 
 		if len(right) != 1 {
-- 
2.43.0


From 6e5c1326049d5ef078e5c2b5e63f05b2dedbc9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 17/25] fix: generate the same manifest on every run, or fail

The order of the translits was random and a failed write was ignored.
---
 cmd/manifest.json/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/manifest.json/main.go b/cmd/manifest.json/main.go
index 3f18ec2..73ba7b1 100644
--- a/cmd/manifest.json/main.go
+++ b/cmd/manifest.json/main.go
@@ -3,6 +3,8 @@ package main
 import (
 	"encoding/json"
 	"fmt"
+	"os"
+	"sort"
 
 	"github.com/hangulize/hangulize"
 )
@@ -81,11 +83,15 @@ func main() {
 	for id := range translitSet {
 		translits = append(translits, id)
 	}
+	sort.Strings(translits)
 
 	b, err := json.Marshal(manifest{version, specs, translits})
 	if err != nil {
 		panic(err)
 	}
 
-	fmt.Println(string(b))
+	if _, err := fmt.Println(string(b)); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 17f47bd846e72d0cbb339297e0f448c54d84a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 18/25] fix: survive misbehaving JavaScript callbacks

A translit function which throws, rejects with something other than an Error,
answers twice or returns no promise, and a trace function which throws, ended
the whole WebAssembly program.
---
 cmd/hangulize.wasm/hangulize.go | 13 +++++++++++++
 cmd/hangulize.wasm/translit.go  | 22 +++++++++++++++++++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/cmd/hangulize.wasm/hangulize.go b/cmd/hangulize.wasm/hangulize.go
index 95e964a..3745ae2 100644
--- a/cmd/hangulize.wasm/hangulize.go
+++ b/cmd/hangulize.wasm/hangulize.go
@@ -3,6 +3,7 @@
 package main
 
 import (
+	"fmt"
 	"syscall/js"
 
 	"github.com/hangulize/hangulize"
@@ -31,6 +32,18 @@ var jsHangulize = js.FuncOf(func(this js.Value, args []js.Value) any {
 		// Blocking code needs a new goroutine to avoid deadlock in a
 		// JavaScript build.
 		go func() {
+			// JavaScript functions called by this goroutine may throw. It must
+			// not take down the whole program.
+			defer func() {
+				switch e := recover().(type) {
+				case nil:
+				case js.Error:
+					throw(jsError(e.Value))
+				default:
+					throw(fmt.Errorf("%v", e))
+				}
+			}()
+
 			spec, err := hangulize.LoadSpec(lang)
 			if err != nil {
 				throw(err)
diff --git a/cmd/hangulize.wasm/translit.go b/cmd/hangulize.wasm/translit.go
index 17e7c86..0ddd1fd 100644
--- a/cmd/hangulize.wasm/translit.go
+++ b/cmd/hangulize.wasm/translit.go
@@ -38,12 +38,14 @@ func (p promiseTranslit) Transliterate(word string) (string, error) {
 	})
 
 	catch := js.FuncOf(func(this js.Value, args []js.Value) any {
-		err := errors.New(args[0].Get("message").String())
-		catchCh <- err
+		catchCh <- jsError(args[0])
 		return nil
 	})
 
-	p.fn.Invoke(word).Call("then", then).Call("catch", catch)
+	// The function may not return a genuine promise, which settles at most
+	// once and always asynchronously.
+	promise := js.Global().Get("Promise").Call("resolve", p.fn.Invoke(word))
+	promise.Call("then", then).Call("catch", catch)
 
 	select {
 	case result := <-thenCh:
@@ -53,6 +55,20 @@ func (p promiseTranslit) Transliterate(word string) (string, error) {
 	}
 }
 
+// jsError converts a thrown or rejected value, which may not be an Error.
+func jsError(v js.Value) (err error) {
+	defer func() {
+		if recover() != nil {
+			err = errors.New("unknown JavaScript error")
+		}
+	}()
+
+	if v.Type() == js.TypeObject && v.InstanceOf(js.Global().Get("Error")) {
+		return errors.New(v.Get("message").String())
+	}
+	return errors.New(js.Global().Get("String").Invoke(v).String())
+}
+
 // jsUseTranslit wraps hangulize.UseTranslit in JavaScript.
 //
 //	useTranslit(scheme: string, fn: (word: string) => Promise<string>) => boolean
-- 
2.43.0


From 8973e813269d6fcf31ecb88da2c79a3a669c4a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 19/25] fix: never show the result of a superseded input

An invalid input did not replace the running target, so its result appeared
later. A superseded input which waited for the running job requested another
job.
---
 web/src/hangulize/useHangulize.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/web/src/hangulize/useHangulize.ts b/web/src/hangulize/useHangulize.ts
index 49a6b69..432cef7 100644
--- a/web/src/hangulize/useHangulize.ts
+++ b/web/src/hangulize/useHangulize.ts
@@ -119,6 +119,9 @@ export function useHangulize(): [Hangulize, SetHangulizeInput] {
   useEffect(() => {
     async function hangulizeEffect() {
       if (!hangulize.isValidInput(input)) {
+        // Drop the result of the currently running job.
+        target.current = { lang: '', word: '' }
+
         setResult('')
         setState(HangulizeState.IDLE)
 
@@ -161,6 +164,7 @@ export function useHangulize(): [Hangulize, SetHangulizeInput] {
       // probably will be dropped.
       if (processing.current !== null) {
         await processing.current
+        if (target.current !== input) return
       }
 
       // This is the last request. Hangulize it.
-- 
2.43.0


From 89a5f280ad591a8596e068cd3efce409c3083c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 20/25] fix: refuse requests to a worker whose program failed
 to load

They waited forever, so the page kept processing.
---
 web/src/hangulize/runWebAssembly.ts | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/web/src/hangulize/runWebAssembly.ts b/web/src/hangulize/runWebAssembly.ts
index 742e0d1..ac99e3e 100644
--- a/web/src/hangulize/runWebAssembly.ts
+++ b/web/src/hangulize/runWebAssembly.ts
@@ -11,14 +11,18 @@ export function runWebAssembly(url: URL) {
   const go = new Go()
 
   let markReady: () => void
-  const ready = new Promise<void>((resolve) => {
+  let markFailed: (reason: unknown) => void
+  const ready = new Promise<void>((resolve, reject) => {
     markReady = resolve as () => void
+    markFailed = reject
   })
 
-  WebAssembly.instantiateStreaming(fetch(url), go.importObject).then((wasm) => {
-    go.run(wasm.instance)
-    markReady()
-  })
+  WebAssembly.instantiateStreaming(fetch(url), go.importObject)
+    .then((wasm) => {
+      go.run(wasm.instance)
+      markReady()
+    })
+    .catch((e) => markFailed(e))
 
   return ready
 }
-- 
2.43.0


From 3b5177735b112e5d383d5db228148f7cf178520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 21/25] fix: refuse unknown schemes in the translit programs

An unknown scheme took down the Cyrillic program, and an error was answered as
if it were a transliteration.
---
 cmd/cyrillic.translit.wasm/main.go   | 7 ++++++-
 cmd/furigana.translit.wasm/main.go   | 5 +++++
 cmd/pinyin.translit.wasm/main.go     | 5 +++++
 web/src/hangulize/translit.worker.ts | 8 ++++++--
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/cmd/cyrillic.translit.wasm/main.go b/cmd/cyrillic.translit.wasm/main.go
index 1136197..64ca8cb 100644
--- a/cmd/cyrillic.translit.wasm/main.go
+++ b/cmd/cyrillic.translit.wasm/main.go
@@ -15,7 +15,12 @@ var jsTransliterate = js.FuncOf(func(this js.Value, args []js.Value) any {
 	scheme := args[0].String()
 	word := args[1].String()
 
-	result, err := translits[scheme].Transliterate(word)
+	t, ok := translits[scheme]
+	if !ok {
+		return js.Global().Get("Error").New("unknown translit scheme: " + scheme)
+	}
+
+	result, err := t.Transliterate(word)
 	if err != nil {
 		return js.Global().Get("Error").New(err.Error())
 	}
diff --git a/cmd/furigana.translit.wasm/main.go b/cmd/furigana.translit.wasm/main.go
index 301918b..7306341 100644
--- a/cmd/furigana.translit.wasm/main.go
+++ b/cmd/furigana.translit.wasm/main.go
@@ -9,8 +9,13 @@ import (
 )
 
 var jsTransliterate = js.FuncOf(func(this js.Value, args []js.Value) any {
+	scheme := args[0].String()
 	word := args[1].String()
 
+	if scheme != furigana.T.Scheme() {
+		return js.Global().Get("Error").New("unknown translit scheme: " + scheme)
+	}
+
 	result, err := furigana.T.Transliterate(word)
 	if err != nil {
 		return js.Global().Get("Error").New(err.Error())
diff --git a/cmd/pinyin.translit.wasm/main.go b/cmd/pinyin.translit.wasm/main.go
index dc7125d..c93538c 100644
--- a/cmd/pinyin.translit.wasm/main.go
+++ b/cmd/pinyin.translit.wasm/main.go
@@ -9,8 +9,13 @@ import (
 )
 
 var jsTransliterate = js.FuncOf(func(this js.Value, args []js.Value) any {
+	scheme := args[0].String()
 	word := args[1].String()
 
+	if scheme != pinyin.T.Scheme() {
+		return js.Global().Get("Error").New("unknown translit scheme: " + scheme)
+	}
+
 	result, err := pinyin.T.Transliterate(word)
 	if err != nil {
 		return js.Global().Get("Error").New(err.Error())
diff --git a/web/src/hangulize/translit.worker.ts b/web/src/hangulize/translit.worker.ts
index af024d0..d23e862 100644
--- a/web/src/hangulize/translit.worker.ts
+++ b/web/src/hangulize/translit.worker.ts
@@ -5,7 +5,7 @@ import * as Comlink from 'comlink'
 import { runWebAssembly } from './runWebAssembly'
 
 declare global {
-  const translit: (method: string, word: string) => string
+  const translit: (method: string, word: string) => string | Error
 }
 
 const urls: { [method: string]: URL } = {
@@ -46,7 +46,11 @@ const endpoint: TranslitEndpoint = {
     }
     await ready
 
-    return await translit(method, word)
+    const result = await translit(method, word)
+    if (result instanceof Error) {
+      throw result
+    }
+    return result
   },
 }
 
-- 
2.43.0


From 089f0af4fa221829675d7d3de160537eca278296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 22/25] fix: allow long lines when writing a coverage profile

---
 cmd/hangulize/cover.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index b39a282..b3f8397 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -133,6 +133,7 @@ func (c *cover) WriteProfile(w io.Writer) error {
 
 		cols := make([]int, 0)
 		scanner := bufio.NewScanner(file)
+		scanner.Buffer(nil, len(spec.Source)+1) // a line may be as long as the file
 		for scanner.Scan() {
 			col := len(scanner.Text()) + 1
 			cols = append(cols, col)
-- 
2.43.0


From 0f2cbc8a3ca3a0e891e729079f15d463bae6630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:07 +0000
Subject: [PATCH 23/25] fix: end the values of a pair at a trailing comment

---
 pkg/hsl/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index a4bc4c9..22f18f7 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -125,7 +125,8 @@ func (p *parser) parseValues() ([]string, error) {
 		} else if tok == EOF {
 			break
 		} else if tok == Comment {
-			continue
+			// A comment takes the rest of its line.
+			break
 		}
 
 		// Collect strings in values.
-- 
2.43.0


From 940e522f8c0b258f54a090af0aeab1b2b5937bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 24/25] fix: do not show that a failed or empty transcription
 is loading

---
 web/src/components/App.tsx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/src/components/App.tsx b/web/src/components/App.tsx
index 82d58b0..c973492 100644
--- a/web/src/components/App.tsx
+++ b/web/src/components/App.tsx
@@ -21,7 +21,8 @@ function determineLoadingResult(
   }
 
   if (!hangulize.result) {
-    return [true, '…']
+    // There is nothing to wait for if the transcription failed or is empty.
+    return hangulize.state === HangulizeState.IDLE ? [false, ''] : [true, '…']
   }
 
   if (hangulize.state === HangulizeState.PROCESSING_DELAYED) {
-- 
2.43.0


From a8312025eb7215c6b45bae7c286643af3c9ccfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 25/25] fix: encode the word in the link of an example

---
 web/src/components/Examples.tsx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/src/components/Examples.tsx b/web/src/components/Examples.tsx
index 9fbc5f0..1764de9 100644
--- a/web/src/components/Examples.tsx
+++ b/web/src/components/Examples.tsx
@@ -1,6 +1,6 @@
 import _ from 'lodash'
 import { useEffect, useRef, useState } from 'react'
-import { Link } from 'react-router-dom'
+import { createSearchParams, Link } from 'react-router-dom'
 import { Container, Icon, Label } from 'semantic-ui-react'
 
 import type { Example, Specs } from '../hangulize/spec'
@@ -34,7 +34,7 @@ export default function Examples({ specs, lang }: ExamplesProps) {
       <label>예시</label> <Icon name="shuffle" link onClick={shuffle} />
       {examples.map((x, i) => {
         return (
-          <Label as={Link} to={`?lang=${lang}&word=${x.word}`} key={i}>
+          <Label as={Link} to={`?${createSearchParams({ lang, word: x.word })}`} key={i}>
             {x.word}
           </Label>
         )
-- 
2.43.0

