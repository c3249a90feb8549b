#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Concurrent transcriptions are isolated from each other",
  "Any number of goroutines may transcribe at the same time, through the package-level function or through shared or private Hangulizers, for any mix of languages, specs and words, with specs being loaded and unloaded and translits registered meanwhile. Each call returns exactly the result and error it would return if it ran alone. There is no data race, deadlock or crash, and no goroutine is left running when the calls have returned.",
  ["schedules", "inputs", "histories"],
  "every interleaving of concurrent calls, for every assignment of languages and words to goroutines",
  "The tests call the API from one goroutine at a time and never run with the race detector; a lost interleaving needs a preemption between two particular statements.",
  ["hangulize.go", "procedure.go", "specs.go", "spec.go", "translit.go", "rule.go", "trace.go", "internal/subword/replace.go", "internal/jamo/jamo.go", "pkg/hre/pattern.go"],
  [("a fresh procedure object with its own buffers per call", "procedure.go newProcedure"), ("parsed specs and rules are read-only after parsing", "spec.go"), ("spec cache and registries guarded", "specs.go, translit.go")],
  [("spec cache", "bundled specs already parsed", "specs.go"), ("default translit registry", "translits used by package-level calls", "translit.go")],
  ["return values of Hangulize", "race reports", "process liveness"])

p("C02", "The bundled-spec cache behaves as one atomic cache",
  "Loading a bundled language returns one shared spec until that language is unloaded; every concurrent or later load in between gets the same spec object, and the first load after an unload gets a freshly parsed but equivalent one. Loads, unloads and listings from any goroutines take effect as if one at a time. An unknown language always gives the not-found error with no spec and leaves the cache unchanged, and a spec that is unloaded while in use keeps working.",
  ["schedules", "histories", "inputs"],
  "every concurrent history of load, unload and list operations over every set of language names, known or not",
  "Tests load each language sequentially, never unload, and never overlap two first loads.",
  ["specs.go", "errors.go"],
  [("cache lookup, parse, publish", "specs.go LoadSpec"), ("flush", "specs.go UnloadSpec")],
  [("spec cache", "language name -> parsed spec", "specs.go")],
  ["LoadSpec return values and their identity", "errors.Is(err, ErrSpecNotFound)"])

p("C03", "Translit registration is atomic and each call sees one registry state",
  "Registering a translit succeeds exactly when its scheme is not registered and removing one succeeds exactly when it is, for the default registry and for each Hangulizer, from any goroutines, as if the operations happened one at a time. Each transcription uses the translits that were registered at one single moment between its start and its return. So a call never mixes registrations from before and after a change, nor reports a scheme missing that was registered throughout the call.",
  ["schedules", "histories"],
  "every concurrent history of register, remove, list and transcribe operations on a registry",
  "Tests exercise register and remove sequentially with one scheme.",
  ["translit.go", "hangulize.go", "procedure.go"],
  [("check-then-insert", "translit.go Add"), ("snapshot at the start of a call", "hangulize.go Hangulize -> Translits -> Detach")],
  [("translit registry", "scheme -> translit", "translit.go")],
  ["boolean results of UseTranslit/UnuseTranslit", "Translits()", "outcome of Hangulize"])

p("C04", "Registries of different Hangulizers never leak into each other",
  "A new Hangulizer starts with no translits. Registering or removing on one Hangulizer or on the default registry affects only that one. The maps handed out as listings are detached copies: changing one changes no registry and no later listing, and later registrations do not change an earlier listing.",
  ["histories", "schedules"],
  "every interleaved history of operations over the default registry and any number of Hangulizers, including Hangulizers sharing one spec",
  "Tests use at most one private registry at a time and do not modify listings.",
  ["translit.go", "hangulize.go"],
  [("own registry per Hangulizer", "hangulize.go New"), ("copy on listing", "translit.go Detach")],
  [("private registries", "one per Hangulizer", "hangulize.go")],
  ["Translits() on every registry after each operation", "Hangulize outcome"])

p("C05", "A missing or failing translit never produces a transcription",
  "If any translit that the spec requires is missing or returns an error, the call returns an error of the matching kind that names the scheme, and no transcription. Required translits run in the spec's order, each exactly once per call and on the previous one's output, and none runs after the first failure. The failure affects no other call, and the same call made again without the fault succeeds.",
  ["fault_sequences", "histories", "schedules"],
  "every sequence of translit failures (which call, which position in the chain, missing or erroring) in sequential and concurrent use",
  "Tests cover one missing translit; no test makes a translit fail, chains several, or retries after a failure.",
  ["procedure.go", "errors.go", "hangulize.go"],
  [("loop over the required schemes with early return", "procedure.go transliterate"), ("wrapping in ErrTranslit / ErrTranslitNotImported", "procedure.go, errors.go")],
  [], ["error returned by Hangulize", "invocation log of the translits"])

p("C06", "Panicking or re-entrant callbacks leave the library usable",
  "A translit or trace callback may panic or call back into the public API (transcribe, load or unload specs, register or remove translits, parse specs) at any point of any call. A panic reaches only the goroutine that made the call; re-entrant calls behave like ordinary calls and never deadlock. Afterwards every operation behaves as if the interrupted call had never been made.",
  ["fault_sequences", "schedules", "histories"],
  "every point at which a callback runs, every panic and every nested API call placed there",
  "No test has a callback that panics or re-enters the API.",
  ["hangulize.go", "procedure.go", "trace.go", "translit.go", "specs.go"],
  [("no lock is held while user code runs", "translit.go, specs.go, procedure.go"), ("per-call state only", "procedure.go, trace.go")],
  [], ["outcome of later calls", "progress of all goroutines"])

p("C07", "Installing the standard translits is all or nothing",
  "Installing the standard translits either registers all of them and reports true, or reports false and leaves the registry holding exactly what it held before. This holds for the default registry and for a given Hangulizer whatever schemes were registered before, and translits that were registered by someone else are never replaced or removed. When several goroutines install into the same empty registry at once, exactly one reports true and all the standard translits end up registered.",
  ["histories", "schedules"],
  "every prior registry content (any subset of the schemes, in any order) and every interleaving of concurrent installs",
  "Tests try an empty registry and one conflict (pinyin) only, sequentially.",
  ["translit/translit.go", "translit.go"],
  [("rollback of what was added before the conflict", "translit/translit.go Install")],
  [("registry", "scheme -> translit", "translit.go")], ["Install result", "Translits() before and after"])

p("C08", "Results do not depend on map iteration order or on the process",
  "For the same spec source, translits and word, parsing and transcribing give the same result, error and trace in every process and however the runtime orders map iteration. This holds also for specs whose macros, variables or normalizations overlap or are prefixes of one another, and for the standard translits themselves.",
  ["schedules", "inputs", "configurations"],
  "every order in which the runtime may iterate over any map, for every spec and word",
  "One test process sees one order per iteration; the test words avoid the ambiguous cases, so a dependence on order shows up as rare flakiness or not at all.",
  ["spec.go", "pkg/hre/macro.go", "pkg/hre/pattern.go", "pkg/hsl/structures.go", "translit/cyrillic/cyrillic.go", "translit.go"],
  [("replacer arguments built in a fixed order", "pkg/hre/macro.go, spec.go, translit/cyrillic/cyrillic.go"), ("sorted letters", "pkg/hre Letters")],
  [], ["Hangulize result, error and trace, compared across iteration orders"])

p("C09", "Results do not depend on what was done before",
  "What a transcription or parse returns depends only on its own inputs: the spec source, the registered translits and the word. It never depends on earlier calls, whether those succeeded, failed or panicked, on other languages or specs in use, on whether the spec was cached, unloaded or reloaded, or on how many calls were made before.",
  ["histories", "inputs"],
  "every history of earlier operations in the same process, of any length",
  "Each test makes a few calls and compares with a fixed expectation; no test compares a call after a long mixed history with the same call in a fresh process.",
  ["hangulize.go", "procedure.go", "specs.go", "spec.go", "rule.go", "pkg/hre/pattern.go", "pkg/hre/rpattern.go", "internal/subword/builder.go", "internal/jamo/jamo.go"],
  [("no mutable state outside the spec cache and the registries", "whole module")],
  [("spec cache", "the only state that survives calls besides registries", "specs.go")],
  ["Hangulize result after a history versus in a fresh state"])

p("C10", "Parsing does not depend on how the reader delivers the bytes",
  "Parsing a spec or an HSL document gives the same outcome for the same byte sequence however the reader hands it over: in pieces of any sizes, cut inside a multi-byte character or token, with empty reads in between, or with end-of-file reported together with the last bytes. The source text kept in the parsed spec is exactly the bytes that the reader delivered.",
  ["schedules", "inputs"],
  "every way to cut a byte stream into reads, for every document",
  "Tests parse in-memory strings that arrive in one read.",
  ["spec.go", "pkg/hsl/lexer.go", "pkg/hsl/parser.go", "pkg/hsl/hsl.go"],
  [("buffered rune reader", "pkg/hsl/lexer.go"), ("tee of the source", "spec.go ParseSpec")],
  [], ["ParseSpec/hsl.Parse result", "Spec.Source"])

p("C11", "A failing reader is always reported, never a shortened spec",
  "If the reader fails with anything other than end-of-file at any point of the document, parsing returns an error and no spec or document. It never treats the part read so far as the whole document. The failure leaves nothing behind: parsing the same document again from a healthy reader succeeds.",
  ["fault_sequences", "inputs"],
  "every byte offset and every kind of read failure (with or without data, repeated empty reads, once or permanently)",
  "No test uses a reader that fails.",
  ["spec.go", "pkg/hsl/lexer.go", "pkg/hsl/parser.go"],
  [("read error kept by the lexer and returned by the parser", "pkg/hsl/lexer.go, pkg/hsl/parser.go")],
  [], ["ParseSpec/hsl.Parse error"])

p("C12", "Truncated or damaged spec sources never hang or crash parsing",
  "Parsing a spec source or HSL document that was cut off at any byte, or in which bytes were changed, lost, duplicated or zeroed, always returns within a number of steps proportional to its length, with either a result or an error and never a panic. A document cut off inside a quoted string is rejected.",
  ["crash_points", "fault_sequences", "inputs"],
  "every cut point and every small set of byte damages of any document",
  "Tests parse intact documents and a few hand-written bad ones; none is unterminated.",
  ["pkg/hsl/lexer.go", "pkg/hsl/parser.go", "pkg/hsl/structures.go", "spec.go", "pkg/hre/assertions.go", "pkg/hre/pattern.go"],
  [("end of input ends every scan", "pkg/hsl/lexer.go"), ("malformed structure becomes an error", "pkg/hsl/parser.go, spec.go")],
  [], ["ParseSpec/hsl.Parse outcome", "steps used"])

p("C13", "Traces are complete, private and have no influence",
  "With a trace callback set, each call emits its own events only, starting with the input word and, if the call succeeds, ending at its result, in procedure order and with rules of that spec; the event of a rewriting rule shows what that rule made of the word before it. The sequence is the same as when the call runs alone, whatever other calls run on the same Hangulizer before or at the same time. Setting, clearing or replacing the callback never changes any result.",
  ["schedules", "histories", "inputs"],
  "every interleaving of traced and untraced calls, on shared or separate Hangulizers",
  "One test checks that traces are non-empty and stop when cleared.",
  ["trace.go", "procedure.go", "hangulize.go"],
  [("one tracer per call", "procedure.go newProcedure"), ("records merged per rule", "trace.go subwordsTracer")],
  [("previous word", "suppresses repeated events within a call", "trace.go")],
  ["events received by the callback, grouped by call", "Hangulize result"])

p("C14", "The command transcribes every input line, in order",
  "Reading words from standard input, the command prints exactly one result line for each line that is not blank, in input order, including a last line without a newline and the lines after blank ones, then exits with status 0. Given words as arguments it does the same for each argument that is not empty. Neither how the input arrives nor how the reading and the printing interleave nor the verbose flag changes what is printed on standard output.",
  ["schedules", "inputs"],
  "every input stream, every way it is cut into reads, and every interleaving of the reading and the transcribing side",
  "There are no tests of the command at all.",
  ["cmd/hangulize/main.go", "cmd/hangulize/dev.go"],
  [("reader goroutine feeding a channel", "cmd/hangulize/main.go readWords"), ("loop until the end of the words", "cmd/hangulize/main.go hangulizeStream")],
  [("word channel", "hand-over between reader and printer", "cmd/hangulize/main.go")],
  ["standard output and exit status of the command"])

p("C15", "Exit status 0 of the command means all its output was delivered",
  "If reading standard input fails or writing standard output fails or is cut short at any point while the command transcribes words, it exits with a non-zero status. What it did write is a prefix of the correct output. It never reports success for lost input or lost output, and never keeps running.",
  ["fault_sequences", "schedules"],
  "every point at which a read or write may fail, and every interleaving of the reading and the printing side",
  "No test runs the command or injects an I/O failure.",
  ["cmd/hangulize/main.go", "cmd/hangulize/dev.go"],
  [("error paths to a non-zero exit", "cmd/hangulize/main.go")],
  [], ["exit status", "bytes on standard output"])

p("C16", "The test command's verdict is right even when files are faulty",
  "The test command exits with status 0 only if it read every given file completely and every example in every file transcribes as written, and it reports each example that does not. If a file is missing, unreadable, fails while being read, is cut off inside a string or is otherwise not a valid spec, it exits with a non-zero status. The verdict does not depend on the order of the files or on whether coverage is being collected.",
  ["fault_sequences", "inputs", "histories"],
  "every set of spec files, every read failure at every point, with and without coverage",
  "The command has no tests.",
  ["cmd/hangulize/test.go", "cmd/hangulize/cover.go", "spec.go"],
  [("comparison of each example", "cmd/hangulize/test.go"), ("failure flag and exit", "cmd/hangulize/test.go")],
  [], ["exit status and report of 'hangulize test'"])

p("C17", "A coverage profile is complete or the command fails",
  "When the test command is asked for a coverage profile and exits with status 0, the file holds exactly the complete profile of this run: the header and one line for every rule of every given file, marked covered exactly if an example exercised that rule, whatever the file held before. If the profile cannot be created or written completely, the command exits with a non-zero status.",
  ["fault_sequences", "histories", "inputs"],
  "every earlier content of the profile file, every write failure at every byte, every set of spec files",
  "The command has no tests.",
  ["cmd/hangulize/test.go", "cmd/hangulize/cover.go"],
  [("opening the profile", "cmd/hangulize/test.go"), ("writing it", "cmd/hangulize/cover.go WriteProfile")],
  [], ["content of the profile file", "exit status"])

p("C18", "The generated manifest is reproducible and never silently cut",
  "Generating the manifest of specs and translits prints the same bytes on every run of the same version, with every bundled language and every translit that any of them needs listed once. If writing it fails at any point the program exits with a non-zero status.",
  ["schedules", "fault_sequences"],
  "every map iteration order of the runtime and every point at which the output may fail",
  "The generator has no tests.",
  ["cmd/manifest.json/main.go", "specs.go"],
  [("collection of the translit set", "cmd/manifest.json/main.go"), ("printing", "cmd/manifest.json/main.go")],
  [], ["standard output and exit status of the generator"])

p("C19", "In the browser build every call settles with its own result",
  "In the WebAssembly build each call of hangulize() returns a promise that settles exactly once: with the transcription of that call's own word, or rejected if its language is unknown or a translit it needs is missing or rejects. This holds for any number of overlapping calls and whatever the order and delay in which the asynchronous translit functions answer; trace callbacks receive the events of their own call only; an event that was delivered does not change any more, and what a callback does to it is not seen by others. Once all translit functions have answered, no call stays pending.",
  ["schedules", "fault_sequences", "histories"],
  "every order, delay and failure of the asynchronous translit answers across overlapping calls",
  "Three tests make one call at a time with a translit that answers at once.",
  ["cmd/hangulize.wasm/hangulize.go", "cmd/hangulize.wasm/translit.go", "cmd/hangulize.wasm/encode.go"],
  [("one goroutine per call", "cmd/hangulize.wasm/hangulize.go"), ("waiting for then/catch on channels", "cmd/hangulize.wasm/translit.go")],
  [], ["settlement of the returned promises", "translit invocations", "trace callbacks"])

p("C20", "A misbehaving JavaScript callback cannot take the browser build down",
  "A translit function that throws, rejects with something that is not an Error, answers more than once or returns something that is not a promise, or a trace function that throws, makes at most its own call fail: that promise is settled. The WebAssembly program keeps running and other calls, during it and afterwards, give their normal results.",
  ["fault_sequences", "schedules"],
  "every misbehaviour of every callback at every call, interleaved with healthy calls",
  "No test has a misbehaving callback.",
  ["cmd/hangulize.wasm/hangulize.go", "cmd/hangulize.wasm/translit.go"],
  [("conversion of callback failures into rejections", "cmd/hangulize.wasm/hangulize.go, translit.go")],
  [], ["settlement of promises", "liveness of the Go program in the page"])

p("C21", "The standard translits are safe and repeatable under concurrent use",
  "The standard translits (furigana, pinyin, Cyrillic) give for each word the same answer in every process, for every order of earlier or concurrent calls, including concurrent first uses. There is no data race between them, and one call never sees another call's word.",
  ["schedules", "histories", "inputs"],
  "every interleaving of calls on the shared translit values, including the lazy first use, and every map order during their initialization",
  "Tests call each translit from one goroutine with a few words.",
  ["translit/furigana/furigana.go", "translit/furigana/typewriter.go", "translit/pinyin/pinyin.go", "translit/cyrillic/cyrillic.go", "translit/cyrillic/dict.go"],
  [("lazily created shared tokenizer", "translit/furigana/furigana.go"), ("replacer built from a map", "translit/cyrillic/cyrillic.go")],
  [("tokenizer", "created at first use and then shared", "translit/furigana/furigana.go")],
  ["Transliterate results", "race reports"])

p("C22", "The web page always ends up showing the latest input's result",
  "However the user types and however slowly or badly the background worker answers, once input stops and the worker has answered, the page's transcription state is idle and shows the result of the latest input (or nothing if that input is invalid or failed). Once the page has taken up a newer input, a result that arrives for an older one is never put up, and no more than one transcription is being requested from the worker at a time.",
  ["schedules", "fault_sequences", "histories"],
  "every timing of input changes, timers and worker answers or failures",
  "The web application has no tests.",
  ["web/src/hangulize/useHangulize.ts"],
  [("latest-target check after every wait", "web/src/hangulize/useHangulize.ts"), ("waiting for the running job", "web/src/hangulize/useHangulize.ts")],
  [("target", "the latest valid input", "useHangulize.ts"), ("processing", "the running request", "useHangulize.ts")],
  ["state and result returned by the hook over time", "requests seen by the worker"])

p("C23", "Web translit workers answer only when ready and for the right scheme",
  "A translit worker answers every request with the transliteration of that request's own scheme and word, even if it was asked before its program finished loading; requests made before loading was started, loading twice, or an unknown method are refused with an error. A worker whose program failed to load refuses requests with an error rather than leaving them without an answer. The page starts one worker per translit method family and routes every scheme to it.",
  ["schedules", "fault_sequences", "histories"],
  "every order of load, readiness and transliterate requests and every load delay",
  "The web application has no tests.",
  ["web/src/hangulize/translit.worker.ts", "web/src/hangulize/hangulize.worker.ts", "web/src/hangulize/runWebAssembly.ts", "web/src/hangulize/useHangulize.ts"],
  [("ready promise", "web/src/hangulize/translit.worker.ts"), ("one worker per normalized method", "web/src/hangulize/useHangulize.ts")],
  [], ["replies of the worker endpoints"])

p("C24", "Compiled patterns and parsed documents are shareable values",
  "Compiled patterns, replacement patterns, rules and parsed documents of the pattern and spec-language packages can be used and created by any number of goroutines at once without a data race. Matching, replacing and listing give the same answers as when done alone. Compiling the same expression with different macros or variables, in any order or at the same time, never mixes them up, and no use changes the value.",
  ["schedules", "histories", "inputs"],
  "every interleaving of compile, match, replace and listing calls over shared values",
  "Tests compile and match from one goroutine, each pattern in isolation.",
  ["pkg/hre/pattern.go", "pkg/hre/rpattern.go", "pkg/hre/macro.go", "pkg/hre/var.go", "pkg/hsl/parser.go", "pkg/hsl/structures.go", "rule.go"],
  [("patterns hold no mutable state", "pkg/hre/pattern.go"), ("replacements computed on local buffers", "pkg/hre/pattern.go Replace, rule.go")],
  [], ["Find/Replace/Letters results", "race reports"])

# ---- pure functions of their input: listed, not claimed -------------------
p("C25", "The listing command names exactly the specs that can be read",
  "The ls command lists every bundled language or, given files, exactly those that can be read completely and are valid specs, one line for each argument in the order given, with the spec's own id, stage and names. A file that is missing, unreadable, damaged, cut off inside a string or fails while being read is left out as a whole: it is never listed from the part that was read, it neither hides nor changes the lines of the others, and it does not crash or stop the command.",
  ["fault_sequences", "inputs", "schedules"],
  "every set of files, every open and read failure at every byte, every piece size of the reads and every map iteration order",
  "The command has no tests.",
  ["cmd/hangulize/ls.go", "spec.go", "specs.go", "pkg/hsl/parser.go"],
  [("opening and parsing of the files in turn", "cmd/hangulize/ls.go listSpecs"), ("printing a line per spec", "cmd/hangulize/ls.go")],
  [], ["output of hangulize ls"])

p("C26", "The page keeps its address, prompt, result and history in step",
  "However the user types, chooses languages, clicks or shuffles examples, goes back and forward, resizes the window or reloads, and however slowly or badly the background worker answers, the page neither crashes nor renders without end. Once the user stops and the worker has answered, the address, the prompt and the title show the language and the word that the user asked for last; the result shown is that of this language and word, in the largest of its sizes that fits, or none if the word is blank or its transcription failed or is empty; nothing is marked as loading, and the examples offered are different examples of that language. While the worker leaves a request unanswered for long, the page says that it is loading. Editing the word or choosing a language replaces the address, a clicked example adds one to the history, an address without a language or a word is replaced by one chosen at random from the specs, and a reload shows what the address says.",
  ["schedules", "fault_sequences", "histories"],
  "every sequence and timing of the user's actions, renders, effects, worker answers and failures, and reloads",
  "The web application has no tests.",
  ["web/src/components/App.tsx", "web/src/components/Prompt.tsx", "web/src/components/SelectLanguage.tsx", "web/src/components/Examples.tsx", "web/src/components/Result.tsx", "web/src/hangulize/useHangulize.ts", "web/src/index.tsx"],
  [("language and word live in the address only", "web/src/components/App.tsx"), ("redirection of incomplete addresses", "web/src/components/App.tsx"), ("loading or result", "web/src/components/App.tsx determineLoadingResult"), ("binary search for the size", "web/src/components/Result.tsx"), ("new examples per language", "web/src/components/Examples.tsx")],
  [("search parameters", "language and word", "App.tsx"), ("lo, hi, mid", "the search for the size", "Result.tsx")],
  ["address and history", "prompt, result, examples and title as rendered"])

p("N01", "Transcription follows the spec's rules in the documented order",
  "The transcription of a word is what the documented procedure yields: transliterate, normalize, group, apply each rewrite rule to the previous rule's output, apply transcribe rules each to what is still untranscribed, compose, localize.",
  ["inputs", "programs"], "every spec and every word",
  "Examples sample about 4300 words of 40 languages.",
  ["procedure.go", "rule.go"], [("the seven steps", "procedure.go forward")], observe=["Hangulize result"])
p("N02", "HRE patterns match what their documentation says",
  "Edges, positive and negative lookaround, macros and variables match exactly the ranges that the documented pattern language gives them, leftmost first and without overlap.",
  ["inputs", "programs"], "every pattern and every word",
  "Tests sample patterns and words by hand.",
  ["pkg/hre/pattern.go", "pkg/hre/assertions.go"], [("expansion into regular expressions", "pkg/hre/assertions.go")], observe=["Pattern.Find"])
p("N03", "Composition turns every Jamo sequence into whole syllables",
  "Composing a sequence of Jamo phonemes yields complete Hangul syllables in order, drops none of them, and leaves every other character untouched and in place.",
  ["inputs"], "every sequence of Jamo, syllables, hyphens and other characters",
  "Tests sample short sequences.",
  ["internal/jamo/jamo.go"], [("lead-medial-tail state machine", "internal/jamo/jamo.go Compose")], observe=["final syllables of Hangulize"])
p("N04", "Characters that the language does not cover pass through unchanged",
  "Characters of other scripts, digits and punctuation that no rule mentions appear in the result unchanged and in their original order relative to the transcribed parts.",
  ["inputs"], "every word and every language",
  "Tests sample a few foreign characters.",
  ["procedure.go", "internal/subword/replace.go"], [("level-0 subwords", "procedure.go partition")], observe=["Hangulize result"])
p("N05", "Negative lookaround is checked over a sufficient width",
  "The computed maximum width of a negative lookaround covers every text its expression can match, so bounding the check by that width never changes the outcome.",
  ["inputs", "programs"], "every lookaround expression and word",
  "Tests compute widths of a few expressions.",
  ["pkg/hre/width.go", "pkg/hre/pattern.go"], [("maximum width", "pkg/hre/width.go")], observe=["Pattern.Find"])
p("N06", "Punctuation is localized without doubled or dangling spaces",
  "Foreign punctuation becomes the Korean form with a space exactly where no punctuation, space or edge follows or precedes.",
  ["inputs"], "every word containing punctuation",
  "Tests sample six strings.",
  ["procedure.go", "internal/scripts/hrkt.go"], [("localize", "procedure.go")], observe=["Hangulize result"])
p("N07", "Well-formed HSL documents parse to what they say",
  "Every well-formed document yields exactly its sections, keys, values and pairs, with list order and line numbers kept.",
  ["inputs"], "every well-formed document",
  "Tests sample small documents.",
  ["pkg/hsl/lexer.go", "pkg/hsl/parser.go"], [("lexer and parser", "pkg/hsl")], observe=["hsl.Parse result"])
p("N08", "Every word transcribes without panic in every bundled language",
  "For every bundled language and every string, valid UTF-8 or not, transcription returns normally.",
  ["inputs"], "every string in every bundled language",
  "Tests sample ordinary words.",
  ["procedure.go", "pkg/hre/pattern.go", "specs/"], [("rules consume at least one character", "pkg/hre/pattern.go Find")], observe=["Hangulize result"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
