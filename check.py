#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py P01                 run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py P01 --replay FILE   re-execute a replay file, verbosely

exit 0: no violation found; exit 1: VIOLATION line printed; exit 2: the check itself failed.
"""
import json, os, re, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
import build as builder
from props import PROPS

WORKERS = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 4)
KNOWN = os.path.join(VERIF, "known_findings.txt")

def die(msg):
    print("CHECK ERROR: " + msg, flush=True)
    sys.exit(2)

def known_findings(prop):
    out = []
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*?)/ :: (.*)$", line.strip())
        if m and m.group(1) == prop:
            out.append(dict(cls=m.group(2), rx=re.compile(m.group(3)), text=m.group(4)))
    return out

def sim_env():
    e = dict(os.environ)
    for k in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS", "MALLOC_PERTURB_"):
        e.pop(k, None)
    e["LC_ALL"] = "C"
    e["QT_QPA_PLATFORM"] = "offscreen"
    return e

def exec_trace(exe, prop, text, verbose=False):
    path = os.path.join(builder.OUT, "tmp-%d.trace" % os.getpid())
    open(path, "w").write(text)
    try:
        p = subprocess.run([exe, "exec", "--prop", prop, "--trace", path] + (["--verbose"] if verbose else []),
                           capture_output=True, text=True, errors="replace", env=sim_env(), timeout=300)
    finally:
        os.unlink(path)
    lines = p.stdout.strip().splitlines()
    if verbose:
        for l in lines[:-1]:
            print(l)
    if not lines:
        die("no result: " + p.stderr[-2000:])
    return json.loads(lines[-1])

def same(a, b):
    return a["status"] == "fail" and a["class"] == b["class"]

def minimise(exe, prop, text, want, budget=60.0, tries=400):
    """ddmin over the lines, then over the integer arguments."""
    t0 = time.time()
    n = [0]
    def bad(lines):
        if time.time() - t0 > budget or n[0] >= tries:
            return False
        n[0] += 1
        return same(exec_trace(exe, prop, "\n".join(lines) + "\n"), want)
    lines = [l for l in text.splitlines() if l and not l.startswith("#")]
    head = [l for l in lines if l.startswith("world ")]
    body = [l for l in lines if not l.startswith("world ")]
    # Cut what follows the failing step first.
    step = want.get("step", 0)
    if 0 < step < len(lines):
        cut = [l for l in lines[:step + 1] if not l.startswith("world ")]
        if len(cut) < len(body) and bad(head + cut):
            body = cut
    chunk = max(1, len(body) // 2)
    while True:
        i, changed = 0, False
        while i < len(body):
            cand = body[:i] + body[i + chunk:]
            if bad(head + cand):
                body, changed = cand, True
            else:
                i += chunk
        if chunk == 1 and not changed:
            break
        if not changed or chunk > len(body):
            chunk = max(1, chunk // 2)
        if time.time() - t0 > budget or n[0] >= tries:
            break
    # Simpler arguments.
    for i in range(len(body)):
        w = body[i].split()
        for j in range(2, len(w)):
            if not re.fullmatch(r"-?\d+", w[j]) or w[j] == "0":
                continue
            for v in ("0", "1"):
                if w[j] == v:
                    break
                c = w[:j] + [v] + w[j + 1:]
                if bad(head + body[:i] + [" ".join(c)] + body[i + 1:]):
                    w = c
                    body[i] = " ".join(c)
                    break
    return "\n".join(head + body) + "\n", n[0]

def read_sets(path):
    data = open(path, "rb").read()
    n = struct.unpack_from("<Q", data, 0)[0]
    a = set(struct.unpack_from("<%dQ" % n, data, 8))
    m = struct.unpack_from("<Q", data, 8 + 8 * n)[0]
    b = set(struct.unpack_from("<%dQ" % m, data, 16 + 8 * n))
    os.unlink(path)
    return a, b

def run_batches(exe, prop, seed, first, count, wall, double):
    procs = []
    for w in range(WORKERS):
        n = (count - w + WORKERS - 1) // WORKERS
        if n <= 0:
            continue
        sets = os.path.join(builder.OUT, "sets-%d-%d" % (os.getpid(), w))
        cmd = [exe, "batch", "--prop", prop, "--seed", str(seed), "--from", str(first + w), "--step", str(WORKERS),
               "--count", str(n), "--wall", str(int(wall)), "--double", str(double), "--sets", sets, "--maxfail", "6"]
        errf = open(os.path.join(builder.OUT, "err-%d-%d" % (os.getpid(), w)), "w+")
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=errf, text=True, errors="replace", env=sim_env()), sets, errf))
    fails, sums, div = [], [], []
    A, B = set(), set()
    for p, sets, errf in procs:
        out, _ = p.communicate()
        errf.seek(0)
        err = errf.read()
        errf.close()
        os.unlink(errf.name)
        summary = None
        for l in out.splitlines():
            if not l.startswith("{"):
                continue
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if "summary" in j:
                summary = j
            elif "diverged" in j:
                div.append(j)
            elif j.get("status") == "fail":
                fails.append(j)
        if summary is None:
            die("worker ended without a summary (status %s): %s" % (p.returncode, err[-1500:]))
        sums.append(summary)
        if os.path.exists(sets):
            a, b = read_sets(sets)
            A |= a
            B |= b
    fails.sort(key=lambda j: j["index"])
    return fails, sums, div, A, B

def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    # Passes: builds of the code under test, each with its share of the runs.
    passes = cfg.get("passes", [("asan", 1.0)])
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        m = re.search(r"^# build: (\S+)$", open(f).read(), re.M)
        r = exec_trace(builder.build(m.group(1) if m else passes[0][0], cfg.get("group", "core")), prop, open(f).read(), verbose=True)
        print(json.dumps(r, indent=1))
        sys.exit(1 if r["status"] == "fail" else 0)
    print("seed %d, property %s, tier %s" % (seed, prop, tier), flush=True)
    exes = {fl: builder.build(fl, cfg.get("group", "core")) for fl, _ in passes}
    build_s = time.time() - t0
    runs = cfg["runs"][0 if tier == "quick" else 1]
    wall = 300 if tier == "quick" else 720
    if "--runs" in sys.argv:
        runs = int(sys.argv[sys.argv.index("--runs") + 1])
    fails, sums, div, states, histories, secs, first = [], [], [], set(), set(), 0, 0
    for fl, share in passes:
        n = int(runs * share)
        f1, s1, d1, a1, b1 = run_batches(exes[fl], prop, seed, first, n, wall * cfg.get("wall_share", {}).get(fl, 1.0 / len(passes)), cfg.get("double", 40))
        for x in f1 + s1:
            x["flavour"] = fl
        fails += f1; sums += s1; div += d1; states |= a1; histories |= b1
        secs += max(s["secs"] for s in s1)
        first += n
        if len({f["class"] for f in f1}) >= 3:
            break
    counters = {}
    for s in sums:
        for k, v in s["counters"].items():
            counters[k] = counters.get(k, 0) + v
    total = sum(s["runs"] for s in sums)

    violations, known_hit, notes = [], {}, []
    known = known_findings(prop)
    seen = set()
    for f in fails:
        if time.time() - t0 > 780:
            break
        if f["class"] in seen:
            continue
        exe = exes[f["flavour"]]
        gen = subprocess.run([exe, "gen", "--prop", prop, "--seed", str(seed), "--index", str(f["index"])], capture_output=True, text=True, env=sim_env()).stdout
        again = exec_trace(exe, prop, gen)
        stable = same(again, f)
        text, tries = (minimise(exe, prop, gen, f) if stable else (gen, 0))
        final = exec_trace(exe, prop, text)
        if not same(final, f):
            text, final = gen, f
        hit = next((k for k in known if k["cls"] == f["class"] and (k["rx"].search(final["msg"]) or k["rx"].search(text))), None)
        if hit:
            known_hit[hit["text"]] = known_hit.get(hit["text"], 0) + 1
            continue
        seen.add(f["class"])
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d-%d.trace" % (prop, f["class"], seed, f["index"]))
        with open(path, "w") as o:
            o.write("# property %s violated: %s\n# %s\n# at: %s\n# build: %s\n# seed %d run %d, minimised with %d executions from %d to %d lines\n# replay: python3 check.py %s --replay %s\n" % (
                prop, final["class"], final["msg"].replace("\n", " ")[:1500], final.get("step_text", ""), f["flavour"], seed, f["index"], tries, len(gen.splitlines()), len(text.splitlines()), prop, path))
            o.write(text)
        violations.append((path, final, stable))
        if len(violations) >= 3:
            break

    for d in div:
        notes.append("run %s not repeatable" % d["diverged"])
    if div and not violations:
        die("simulation not repeatable: " + json.dumps(div[:3]))

    ok = sum(s["ok"] for s in sums)
    disc = sum(s["discard"] for s in sums)
    sample = next((s["sample"] for s in sums if s["sample"]), "")
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe.")}
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=total,
            distinct_nontrivial=len(histories),
            rule=cfg["rule"],
            samples=[sample],
            simulated_steps=counters.get("steps", 0),
            simulated_time="no clocks or timers in the program; simulated time is counted in executed operations (simulated_steps)",
            seeds_and_runs_per_hour=int(total / max(secs, 1e-3) * 3600),
            seeds="every run has its own seed, derived from VERIF_SEED, the property and the run number",
            distinct_states=len(states),
            distinct_states_measure=cfg["states"],
            runs_ok=ok, runs_discarded=disc,
            discarded_because={k[8:]: v for k, v in sorted(counters.items()) if k.startswith("discard.")},
            runs_executed_twice=sum(s["doubled"] for s in sums), runs_diverging=len(div),
            faults_fired=faults, probes_hit=probes,
            other_counters={k: v for k, v in sorted(counters.items()) if not k.startswith(("fault.", "probe.", "discard.")) and k != "steps"},
            real_code=cfg["real"], stubs=cfg["stubs"],
            workers=WORKERS, builds={fl: sum(s["runs"] for s in sums if s["flavour"] == fl) for fl, _ in passes}, build_s=round(build_s, 1), search_s=round(secs, 1),
            cut_by_wall_clock=any(s["out_of_time"] for s in sums),
        ),
        assumptions=cfg["assumptions"],
        wall_s=round(time.time() - t0, 2),
        violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)

    for text, n in known_hit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%d runs (%d ok, %d discarded), %d steps, %d distinct histories, %d distinct states, %.0f runs/h, faults %s" % (
        total, ok, disc, counters.get("steps", 0), len(histories), len(states), total / max(secs, 1e-3) * 3600, faults))
    for path, final, stable in violations:
        print("%s: %s%s" % (final["class"], final["msg"][:1500], "" if stable else " (did not fail again when re-executed)"))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if violations:
        sys.exit(1)
    if total < runs * 0.2 and not any(s["out_of_time"] for s in sums):
        die("only %d of %d runs executed" % (total, runs))
    if ok == 0:
        die("no run reached its end")
    for k in cfg.get("must_hit", []):
        if tier == "quick" and total >= runs and not counters.get(k):
            print("warning: probe %s was never hit" % k)
    sys.exit(0)

if __name__ == "__main__":
    main()
