"""Properties decided by the Go simulator."""
import glob, json, os, subprocess, sys, time
from common import *

RULE = ("A case is one plan drawn from a seed: the operations of every simulated task, their faults, the "
        "scheduling policy and the map order. It is non-trivial if %s; two cases are distinct if the hash of "
        "schedule and observations differs.")
NODE_RULE = ("A case is one plan drawn from a seed: the actions and when they happen, the delays, answers and faults of "
             "workers, translits and renders. It is non-trivial if %s; two cases are distinct if the hash of "
             "schedule and observations differs.")

COMMON_REAL = "all of hangulize's Go code (instrumented copy of the working tree), Go standard library, kagome, x/text, go-pinyin"
COMMON_STUB = "goroutine scheduler, sync, channels, map order (simulator); callbacks of the caller (seeded stubs)"

CMD_STUB = "goroutine scheduler, sync, channels, map order, os (process, standard streams, files, clock of stalls): simulator"

# prop -> settings
#   race: share of the workers that run under the race detector
NOTE = ("Sampling: no violation in the executions of this run's seeds (their number is in the evidence). The real code runs, "
        "instrumented; scheduling, %sare simulated. Trusted: the instrumenter, the simulator and the oracle in sim/harness.")

NODE_NOTE = ("Sampling: no violation in the executions of this run's seeds (their number is in the evidence). The real code runs under node "
             "with a simulated browser (event loop, clock, timers, randomness, messages, fetching). Trusted: that browser and the oracle in web/.")
WASM_REAL = "cmd/hangulize.wasm compiled to WebAssembly with Go's runtime for js/wasm and wasm_exec.js, from the working tree; V8"
WASM_STUB = "the page's event loop, clock, timers and randomness; the asynchronous translits and trace functions (seeded)"
PAGE_REAL = "web/src/hangulize (useHangulize.ts, hangulize.worker.ts, translit.worker.ts, runWebAssembly.ts), bundled from the working tree; V8"
PAGE_STUB = "React 18 (hooks, batching, effects), Comlink (messages), Worker, fetch, WebAssembly loading, timers, clock; the WebAssembly programs unless stated"
WEB_MEASURE = "hash of the sequence of the event loop's tasks"

CONF = {
    "C01": dict(race=4, quick=45, over="goroutine schedules of concurrent calls, with a race detector",
                note=NOTE % "locks and map order ",
                rule="at least two calls of different tasks overlapped, or a load, unload, error or registry change happened"),
    "C02": dict(race=3, quick=40, over="schedules of loads and unloads, histories checked for linearizability",
                note=NOTE % "locks and map order ",
                rule="calls overlapped, or a cold, warm or unknown load or an unload happened"),
    "C03": dict(race=3, quick=40, over="schedules of registry operations, histories checked for linearizability",
                note=NOTE % "locks and map order ",
                rule="operations on a registry were recorded and checked for linearizability"),
    "C04": dict(race=0, quick=30, over="interleaved histories of registry operations against a reference model",
                note=NOTE % "locks and map order ",
                rule="tasks interleaved, or a listing was kept or changed by its owner"),
    "C05": dict(race=1, quick=40, over="injected missing and failing translits in concurrent and repeated calls",
                note=NOTE % "locks and map order ",
                rule="a translit was missing or failed, or several were chained"),
    "C06": dict(race=2, quick=45, over="panics and re-entrant API calls injected at every callback of concurrent calls",
                note=NOTE % "locks and map order ",
                rule="a callback panicked or called back into the library"),
    "C07": dict(race=2, quick=35, over="schedules of concurrent installations and conflicting registrations",
                note=NOTE % "locks and map order ",
                rule="installations overlapped, or a conflicting translit was registered before"),
    "C08": dict(race=0, quick=45, over="map iteration orders and processes, outcomes compared",
                note=NOTE % "map order ",
                rule="the same work ran under several map orders"),
    "C09": dict(race=0, quick=45, over="histories of earlier calls, failures, panics, loads and unloads, outcomes compared with a fresh process",
                note=NOTE % "locks and map order ",
                rule="calls were made, failed, panicked or were interrupted before the compared one"),
    "C10": dict(race=0, quick=40, over="byte deliveries of readers: sizes, empty reads, late or early end-of-file",
                note=NOTE % "readers and map order ",
                rule="the document arrived in more than one piece"),
    "C11": dict(race=0, quick=40, over="reader errors injected at every point of documents",
                note=NOTE % "readers and map order ",
                rule="the reader failed"),
    "C12": dict(race=0, quick=40, over="torn, damaged, lost, duplicated and zeroed document contents, with a step bound for liveness",
                note=NOTE % "readers, storage damage and map order ",
                rule="the document was damaged or cut off"),
    "C13": dict(race=3, quick=45, over="schedules of concurrent calls and trace callback changes",
                note=NOTE % "locks and map order ",
                rule="calls overlapped, or the callback was set, cleared or replaced"),
    "C14": dict(race=2, quick=40, over="arrival times and cuts of standard input and schedules of the command's tasks", stub=CMD_STUB,
                note=NOTE % "standard streams, time, files and map order ",
                rule="input was cut, slow or had several lines, or output was slow"),
    "C15": dict(race=2, quick=40, over="failures of standard input and output at every point and schedules of the command's tasks", stub=CMD_STUB,
                note=NOTE % "standard streams, time, files and map order ",
                rule="a stream failed, or input was cut or slow"),
    "C16": dict(race=0, quick=45, over="file faults, file orders and failing examples given to the test command", stub=CMD_STUB,
                note=NOTE % "files, standard streams and map order ",
                rule="a file was faulty, an example failed or several files were given"),
    "C17": dict(race=0, quick=45, over="file faults while the coverage profile is created and written", stub=CMD_STUB,
                note=NOTE % "files, standard streams and map order ",
                rule="a profile was written or a fault was injected"),
    "C18": dict(race=0, quick=45, over="map iteration orders and failures of standard output", stub=CMD_STUB,
                note=NOTE % "standard output and map order ",
                rule="map order differed or standard output failed"),
    "C25": dict(race=0, quick=35, over="file faults, read sizes and orders of the files given to the listing command", stub=CMD_STUB,
                note=NOTE % "files, standard streams and map order ",
                rule="something was listed or a file was left out"),
    "C21": dict(race=3, quick=50, over="schedules of concurrent and repeated calls of the standard translits and node pool behaviours",
                note=NOTE % "locks, the tokenizer's node pool and map order ",
                stub=COMMON_STUB + ", sync.Pool of the Japanese tokenizer",
                rule="standard translits were called; calls overlapped, repeated or met another pool behaviour"),
    "C24": dict(race=3, quick=45, over="schedules of concurrent compilations and uses of shared patterns, rules and documents",
                note=NOTE % "locks and map order ",
                rule="shared values were used, compiled or parsed"),
    "C19": dict(race=0, quick=40, node="wasm", over="orders and delays of asynchronous translits' answers, overlapping calls and registrations in the WebAssembly program",
                note=NODE_NOTE, real=WASM_REAL, stub=WASM_STUB, measure=WEB_MEASURE,
                rule="calls overlapped, were traced or had to fail"),
    "C20": dict(race=0, quick=40, node="wasm", over="misbehaviours of JavaScript callbacks injected into overlapping calls of the WebAssembly program",
                note=NODE_NOTE, real=WASM_REAL, stub=WASM_STUB, measure=WEB_MEASURE,
                rule="a callback misbehaved"),
    "C22": dict(race=0, quick=40, node="page", over="timings of inputs, renders, timers and worker answers, with slow and failing workers",
                note=NODE_NOTE, real=PAGE_REAL, stub=PAGE_STUB, measure=WEB_MEASURE,
                rule="a result was shown, or the last input was invalid or failed, or input came while a request was running"),
    "C23": dict(race=0, quick=40, node="page", over="orders and timings of requests, message delays and failures while programs load",
                note=NODE_NOTE, real=PAGE_REAL + "; in some plans the real WebAssembly programs", stub=PAGE_STUB, measure=WEB_MEASURE,
                rule="requests were made, refused, or routed by the page"),
    "C26": dict(race=0, quick=35, node="app", over="user actions, render and effect timings, worker delays and failures, history traversals and reloads of the whole page",
                note=NODE_NOTE, real="web/src: index.tsx, all components and the hook, bundled from the working tree; V8",
                stub="React 18 (component tree, hooks, batching, effects), react-router-dom, semantic-ui-react, lodash, fuse.js, hangul-js, Comlink, the worker, layout, history, timers, clock", measure=WEB_MEASURE,
                rule="the user acted, the page chose a place or was reloaded, or a result was shown or missing"),
}
WORKERS = 8


def harness_env(race, out, i):
    e = goenv(GOMAXPROCS="1", GOMEMLIMIT="2500MiB")
    if race:
        e["GORACE"] = "suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=2 log_path=" + os.path.join(out, "race%d" % i)
    return e


def check(prop, tier, seed, replay=None):
    conf = CONF[prop]
    races = conf["race"]
    bins = {}
    if conf.get("node"):
        b = NodeBuilder()
        bins[False] = b.build(conf["node"])
    else:
        b = Builder()
        if races < WORKERS or replay:
            bins[False] = [b.build(False)]
        if races > 0:
            bins[True] = [b.build(True, conf.get("norace_deps", ()))]
    built = time.time() - T0
    out = os.path.join(b.dir, "out")
    os.makedirs(out)

    def replay_file(f, race, n):
        p = subprocess.run(bins[race] + ["replay", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=harness_env(race, out, 9000 + n), timeout=300)
        for line in reversed(p.stdout.strip().splitlines()):
            if line.startswith("{"):
                return json.loads(line) if p.returncode in (0, 1, -9) else None
        return dict(sig="crash", violation=p.stdout[-3000:], hash="-") if p.returncode not in (0, 1) else None

    if replay:
        meta = json.load(open(replay))
        race = bool(meta.get("race")) and True in bins
        r = replay_file(replay, race, 0)
        print(json.dumps(r, ensure_ascii=False))
        if r is None:
            die("the replay ended without a verdict")
        if r["violation"]:
            print(r["violation"])
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            sys.exit(1)
        sys.exit(0)

    budget = conf["quick"] if tier == "quick" else conf.get("thorough", conf["quick"] * 12)
    if "VERIF_BUDGET" in os.environ:
        budget = float(os.environ["VERIF_BUDGET"])
    base = seed * 1_000_000_000 + 1
    t1 = time.time()
    procs = []
    stats = []
    runs = 0
    crashed = []

    known = [(s, r) for p, s, _, r in known_findings() if p == prop]

    def start(i, s, left):
        nonlocal runs
        runs += 1
        d = os.path.join(out, "w%d-%d" % (i, runs))
        os.makedirs(d)
        race = i < races
        log = open(os.path.join(d, "log"), "w")
        p = subprocess.Popen(bins[race] + ["batch", "-prop", prop, "-seed", str(s), "-step", str(WORKERS), "-budget", str(left),
                              "-shrink", str(conf.get("shrink", 40)), "-known", ",".join(s for s, _ in known), "-out", d], stdout=log, stderr=subprocess.STDOUT, env=harness_env(race, d, 0))
        procs.append([p, i, d, race])

    for i in range(WORKERS):
        start(i, base + i, budget)
    while procs:
        for x in list(procs):
            p, i, d, race = x
            if p.poll() is None:
                continue
            procs.remove(x)
            fs = glob.glob(d + "/stats-*.json")
            if p.returncode != 0 or not fs:
                crashed.append((d, race, p.returncode, open(d + "/log").read()))
                continue
            s = json.load(open(fs[0]))
            s["race"] = race
            s["dir"] = d
            stats.append(s)
            left = budget - (time.time() - t1)
            if s["stopped"] == "recycle" and left > 1:
                start(i, s["next"], left)
        time.sleep(0.1)
        if time.time() - t1 > budget + 400:
            for p, *_ in procs:
                p.kill()
            die("workers did not end in time")
    # A worker that died: find out whether one plan makes the program die.
    dead = []
    for d, race, code, log in crashed[:3]:
        try:
            cur = open(d + "/cur").read().split()[0]
        except (OSError, IndexError):
            continue
        f = d + "/dead.json"
        plan = json.loads(subprocess.run(bins[race] + ["gen", "-prop", prop, "-seed", cur], stdout=subprocess.PIPE, text=True, env=goenv()).stdout)
        json.dump(dict(property=prop, seed=int(cur), sig="crash", violation="", hash="-", minimised="no", plan=plan), open(f, "w"))
        r1, r2 = replay_file(f, race, 7000), replay_file(f, race, 7001)
        if r1 and r2 and r1["sig"] == r2["sig"] and r1["sig"] in ("crash", "hang"):
            meta = json.load(open(f))
            meta.update(race=race, sig=r1["sig"], violation="the process died or hung: " + (r1["violation"] or "")[:1500])
            dead.append(meta)
            break
    if crashed and not dead and not any(s["replays"] for s in stats):
        die("a worker of the simulator failed (%d)" % crashed[0][2], crashed[0][3])

    # Every violation has to happen again, in a new process, exactly.
    confirmed, unconfirmed = list(dead), []
    seen = set()
    for sig, f in known:
        if f and False in bins:
            r = replay_file(os.path.join(VERIF, f), False, 8000)
            if r and r["sig"] == sig:
                meta = json.load(open(os.path.join(VERIF, f)))
                meta.update(race=False, sig=sig, violation=r["violation"], hash=r["hash"])
                seen.add(sig)
                confirmed.append(meta)
    for s in stats:
        for f in s["replays"] or []:
            meta = json.load(open(f))
            if meta["sig"] in seen:
                continue
            o = glob.glob(os.path.join(s["dir"], "o-%s-%d-*.json" % (prop, meta["seed"])))
            for g in [f] + o:
                r1 = replay_file(g, s["race"], len(seen))
                r2 = replay_file(g, s["race"], len(seen))
                if r1 and r2 and r1["sig"] and r1["sig"] == r2["sig"] and r1["hash"] == r2["hash"]:
                    meta = json.load(open(g))
                    meta.update(race=s["race"], sig=r1["sig"], violation=r1["violation"], hash=r1["hash"])
                    seen.add(meta["sig"])
                    confirmed.append(meta)
                    break
            else:
                unconfirmed.append("%s seed %d (%s)" % (meta["sig"], meta["seed"], meta["violation"][:300]))

    # Determinism: a sample of the plans again, in fresh processes.
    nondet = [x for s in stats for x in (s["nondet"] or [])]
    cross = 0
    sample = {}
    for s in stats:
        ks = sorted(s["hashes"], key=int)
        for k in ks[:: max(1, len(ks) // 8)][:8]:
            sample.setdefault(s["race"], []).append((k, s["hashes"][k]))
    hp = []
    for race, l in sample.items():
        for part in range(4):
            ks = l[part::4]
            if ks:
                p = subprocess.Popen(bins[race] + ["hashes", "-prop", prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                     text=True, env=harness_env(race, out, 5000 + part))
                p.stdin.write("\n".join(k for k, _ in ks) + "\n")
                p.stdin.close()
                hp.append((p, dict(ks)))
    for p, want in hp:
        for line in p.stdout.read().splitlines():
            if len(line.split()) == 2:
                k, h = line.split()
                cross += 1
                if want.get(k) != h:
                    nondet.append("seed %s: %s in one process, %s in another" % (k, want.get(k), h))
        p.wait()

    def add(key):
        d = {}
        for s in stats:
            for k, v in (s[key] or {}).items():
                d[k] = d.get(k, 0) + v
        return dict(sorted(d.items()))

    tot = lambda k: sum(s[k] for s in stats)
    wall = max(0.001, time.time() - t1)
    plans = tot("plans")
    cov = {
        "evaluations": plans,
        "distinct_nontrivial": len(set(h for s in stats for h in (s["distinct"] or []))),
        "rule": (NODE_RULE if conf.get("node") else RULE) % conf["rule"],
        "samples": [x for s in stats for x in (s["samples"] or [])][:3],
        "nontrivial": tot("nontrivial"),
        "simulated_runs": tot("runs"),
        "runs_per_hour": int(tot("runs") / wall * 3600),
        "seeds_per_hour": int(plans / wall * 3600),
        "seeds": [min(s["first_seed"] for s in stats), max(s["last_seed"] for s in stats)],
        "simulated_time_s": round(tot("sim_ns") / 1e9, 1),
        "steps": tot("steps"),
        "context_switches": tot("switches"),
        "operations_checked": tot("calls"),
        "faults_injected": add("faults"),
        "behaviours_reached": add("classes"),
        "scheduling_policies": add("policies"),
        "distinct_interleavings": len(set(h for s in stats for h in (s["scheds"] or []))),
        "interleaving_measure": conf.get("measure", "hash of the sequence of (task, step) context switches and channel/lock choices"),
        "plans_under_race_detector": sum(s["plans"] for s in stats if s["race"]),
        "determinism": {"same_process_repeats": tot("twins"), "other_process_repeats": cross, "differences": nondet[:10]},
        "components": {"real": conf.get("real", COMMON_REAL), "stub": conf.get("stub", COMMON_STUB)},
        "instrumentation": b.log.strip(),
        "build_s": round(built, 1),
        "unconfirmed": unconfirmed,
        "worker_failures": [c[3][-500:] for c in crashed],
    }
    if nondet:
        print("warning: %d repeated executions differed: %s" % (len(nondet), nondet[0]), file=sys.stderr)
    return cov, confirmed
