#!/usr/bin/env python3
"""check.py ID : decides one property of /repo's working tree (see DESIGN.md).

Builds the harness from /repo, runs the suites of the property on all cores, confirms what they
report, prints VIOLATION / KNOWN-FINDING lines and writes evidence/ID.json.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, SUITES  # noqa: E402

T0 = time.time()


def env_sh():
    """The environment of the build (GOROOT and friends)."""
    out = subprocess.run(["bash", "-c", "set -a; . /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    env = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    env.pop("MC_SUITE", None)
    return env


ENV = env_sh()
NW = max(1, min(8, os.cpu_count() or 8))


def fatal(msg):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()
    cleanup()
    sys.exit(2)


SCRATCH = None
procs = []


def cleanup():
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    if SCRATCH and os.path.isdir(SCRATCH):
        subprocess.run(["chmod", "-R", "u+rwX", SCRATCH], stderr=subprocess.DEVNULL)
        shutil.rmtree(SCRATCH, ignore_errors=True)


def go(args, cwd, timeout=600, env=None):
    return subprocess.run(["go"] + args, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def build(kinds, suites=()):
    """Builds the test binaries that are needed. kinds: subset of {ctl, race, plain, cli, clifault}."""
    mc = os.path.join(HERE, "mc")
    r = go(["build", "-o", SCRATCH + "/mcgen", "./cmd/mcgen"], mc)
    if r.returncode:
        fatal("cannot build mcgen:\n" + r.stderr[-3000:])
    bins, notes = {}, []
    for kind in sorted(kinds):
        if kind in ("ctl", "race"):
            last = ""
            for level in (3, 1, 0):
                ov = f"{SCRATCH}/ov-{kind}{level}"
                r = subprocess.run([SCRATCH + "/mcgen", "overlay", "-repo", REPO, "-out", ov, "-level", str(level)], env=ENV, capture_output=True, text=True)
                if r.returncode:
                    last = r.stderr
                    continue
                out = f"{SCRATCH}/h-{kind}.test"
                args = ["test", "-c", "-vet=off"] + (["-race", "-gcflags=github.com/edwingeng/hotswap=-l"] + ["-gcflags=verif.local/mc/%s=-race=false" % x for x in ("h", "rt", "shim/vsync", "shim/vos", "shim/vioutil")] if kind == "race" else []) + ["-overlay", ov + "/overlay.json", "-o", out, "./h"]
                r = go(args, mc)
                if r.returncode == 0:
                    bins[kind] = out
                    if level != 3:
                        notes.append(f"{kind}: instrumentation level {level}")
                    break
                last = r.stdout + r.stderr
            else:
                fatal(f"cannot build the harness ({kind}):\n" + last[-4000:])
        elif kind == "cli":
            out = SCRATCH + "/cli.test"
            r = go(["test", "-c", "-vet=off", "-o", out, "./clih"], mc)
            if r.returncode:
                fatal("cannot build the CLI harness:\n" + (r.stdout + r.stderr)[-4000:])
            bins["cli"] = out
            r = go(["build", "-trimpath", "-o", SCRATCH + "/hotswap", "./cli/hotswap"], REPO)
            if r.returncode:
                fatal("cannot build the hotswap command:\n" + (r.stdout + r.stderr)[-4000:])
            if "clifault" not in suites:
                continue
            err = build_clifault(mc, SCRATCH + "/hotswap-mc")
            if err:
                notes.append("cli: no instrumented command: " + err[-600:])
            else:
                bins["clifault"] = SCRATCH + "/hotswap-mc"
    return bins, notes


def build_clifault(mc, out):
    """The hotswap command with its file operations instrumented, built with a module file that
    adds the shims to the requirements of /repo."""
    ov = SCRATCH + "/ov-cli"
    r = subprocess.run([SCRATCH + "/mcgen", "overlay", "-repo", REPO, "-out", ov, "-cli", "-std=false"], env=ENV, capture_output=True, text=True)
    if r.returncode:
        return r.stderr
    mod = open(REPO + "/go.mod").read()
    mod = re.sub(r"(?m)^module .*$", "module verif.local/mc", mod)
    mod = re.sub(r"(?m)^go .*$", "go 1.27", mod)
    mod += "\nrequire github.com/edwingeng/hotswap v0.0.0\n\nreplace github.com/edwingeng/hotswap => " + REPO + "\n"
    open(SCRATCH + "/cli.mod", "w").write(mod)
    sums = set(open(REPO + "/go.sum").read().splitlines()) | set(open(mc + "/go.sum").read().splitlines())
    open(SCRATCH + "/cli.sum", "w").write("\n".join(sorted(sums)) + "\n")
    b = go(["build", "-modfile", SCRATCH + "/cli.mod", "-overlay", ov + "/overlay.json", "-o", out, "github.com/edwingeng/hotswap/cli/hotswap"], mc)
    return (b.stdout + b.stderr) if b.returncode else ""


def parse_progress(f):
    try:
        b = open(f, "rb").read()
    except OSError:
        return None
    b = b.split(b"\0")[0].decode(errors="replace")
    x = b.split("\n")
    if len(x) < 4:
        return None
    try:
        return {"suite": x[0], "idx": int(x[1]), "case": x[2], "choices": [int(v) for v in x[3].strip("[]").split()]}
    except ValueError:
        return None


def worker_env(suite, shard, n, tier, budget, tag, bins):
    e = dict(ENV)
    d = f"{SCRATCH}/w{tag}"
    os.makedirs(d, exist_ok=True)
    e.update({"MC_SUITE": suite, "MC_SHARD": str(shard), "MC_N": str(n), "MC_TIER": tier, "MC_SCRATCH": d,
              "MC_OUT": f"{SCRATCH}/out{tag}.json", "MC_PROGRESS": f"{SCRATCH}/prog{tag}", "MC_BUDGET": str(max(1, int(budget))),
              "MC_REPO": REPO, "MC_CLI": SCRATCH + "/hotswap", "MC_CLI_FAULT": bins.get("clifault", ""), "MC_MCGEN": SCRATCH + "/mcgen",
              "MC_MODDIR": os.path.join(HERE, "mc"), "MC_HANG": str(SUITES[suite].get("hang", 90)),
              "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
    if n > 1:
        e["MC_CLAIMS"] = f"{SCRATCH}/claims-{suite}"
    if SUITES[suite]["bin"] in ("ctl", "race"):
        e["GOMAXPROCS"] = "1"
    if SUITES[suite]["bin"] == "race":
        e["GORACE"] = "halt_on_error=1 exitcode=66"
    return e


def start(binary, e, tag, extra=None):
    if extra:
        e.update(extra)
    log = open(f"{SCRATCH}/log{tag}", "wb")
    p = subprocess.Popen([binary, "-test.timeout=0"], cwd=e["MC_SCRATCH"], env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    procs.append(p)
    return p


def crash_found(suite, tag, st, prop=None):
    """A worker died: turn that into a finding of the suite's crash/hang/race tags."""
    log = open(f"{SCRATCH}/log{tag}", "rb").read().decode(errors="replace")
    s = SUITES[suite]
    if "MC-HANG" in log:
        kind, props = "hang", s["hang_tags"]
        msg = "the execution does not come back (livelock, or blocked outside the scheduler)"
    elif "WARNING: DATA RACE" in log:
        kind, props = "race", s.get("race_tags", [])
        i = log.index("WARNING: DATA RACE")
        part = log[i:i + 6000]
        fr = [f for f in re.findall(r"(\S+)\(\)\n\s+(\S+:\d+)", part)]
        inrepo = [f"{a} {b}" for a, b in fr if "/hotswap" in a or REPO in b]
        msg = "data race: " + "; ".join(inrepo[:4] or [f"{a} {b}" for a, b in fr[:4]])
        if not inrepo:
            return None, "data race outside of the code under test: " + msg
    else:
        m = re.search(r"^(panic: .*|fatal error: .*|runtime: .*stack.*)$", log, re.M)
        if not m:
            return None, "worker ended without a result: " + log[-1500:]
        # whatever was being checked did not get done: the death counts for the property at hand too
        kind, props = "crash", sorted(set(s["crash_tags"]) | ({prop} if prop else set()))
        msg = "the process dies: " + m.group(1)[:300]
        tail = log[m.start():]
        if "synctest" in m.group(1) or "from outside bubble" in m.group(1):
            return None, "the harness cannot run this: " + tail[:1500]
        if "github.com/edwingeng/hotswap" not in tail and "fatal error" not in m.group(1):
            return None, "the harness died: " + tail[:1500]
    if not st:
        st = {"case": "", "choices": []}
    lines = [l for l in log.splitlines() if l.strip()]
    i = next((k for k, l in enumerate(lines) if "panic:" in l or "fatal error:" in l or "DATA RACE" in l), 0)
    return {"suite": suite, "props": props, "msg": msg, "case": st["case"], "choices": st["choices"], "log": lines[i:i + 60], "count": 1, "kind": kind}, None


def run_suite(suite, tier, budget, bins, prop):
    s = SUITES[suite]
    n = s.get("workers", NW)
    t0 = time.time()
    merged = {"suite": suite, "cases": 0, "my_cases": 0, "executions": 0, "transitions": 0, "events": 0, "found": [], "samples": [], "counters": {}, "bounds": {},
              "capped": False, "cap_reason": "", "hashes": set(), "states_lo": 0, "diverged": 0, "errors": []}
    live = {}
    with open(f"{SCRATCH}/claims-{suite}", "wb") as cf:
        cf.truncate(64 << 20)
    for i in range(n):
        tag = f"-{suite}-{i}"
        live[i] = start(bins[s["bin"]], worker_env(suite, i, n, tier, budget, tag, bins), tag)
    restarts = 0
    hard = t0 + budget + 150
    while live:
        time.sleep(0.02)
        for i, p in list(live.items()):
            rc = p.poll()
            tag = f"-{suite}-{i}"
            if rc is None:
                if time.time() > hard:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    merged["capped"] = True
                    merged["cap_reason"] = "worker stopped at the hard time limit"
                    del live[i]
                continue
            del live[i]
            out = f"{SCRATCH}/out{tag}.json"
            if os.path.exists(out):
                d = json.load(open(out))
                merged["cases"] = max(merged["cases"], d["cases"])
                for k in ("my_cases", "executions", "transitions", "events", "diverged"):
                    merged[k] += d[k]
                merged["states_lo"] = max(merged["states_lo"], d["states"])
                merged["hashes"].update(d.get("hashes") or [])
                for f in d.get("found") or []:
                    f["props"] = f.get("props") or []
                    merged["found"].append(f)
                merged["samples"] += d.get("samples") or []
                merged["bounds"].update(d["bounds"])
                for k, v in d["counters"].items():
                    merged["counters"][k] = merged["counters"].get(k, 0) + v
                if d["capped"]:
                    merged["capped"] = True
                    merged["cap_reason"] = d["cap_reason"]
                continue
            st = parse_progress(f"{SCRATCH}/prog{tag}")
            f, err = crash_found(suite, tag, st, prop)
            merged["capped"] = True
            merged["cap_reason"] = "a worker died"
            if f:
                merged["found"].append(f)
            else:
                merged["errors"].append(err)
            # go on behind the case that killed it
            if st and restarts < 6 and time.time() - t0 < budget and not (f and prop in f["props"]):
                restarts += 1
                e = worker_env(suite, i, n, tier, budget - (time.time() - t0), tag, bins)
                live[i] = start(bins[s["bin"]], e, tag, {"MC_SKIPTO": str(st["idx"] + 1)})
    merged["wall_s"] = round(time.time() - t0, 2)
    return merged


def replay(found, tier, bins, k):
    """Re-executes one finding; returns True if it shows again."""
    suite = found["suite"]
    tag = f"-replay-{k}"
    rf = f"{SCRATCH}/replay{k}.json"
    json.dump({"suite": suite, "case": found["case"], "choices": found["choices"]}, open(rf, "w"))
    out = f"{SCRATCH}/out{tag}.json"
    if os.path.exists(out):
        os.remove(out)
    e = worker_env(suite, 0, 1, tier, 300, tag, bins)
    p = start(bins[SUITES[suite]["bin"]], e, tag, {"MC_REPLAY": rf})
    try:
        p.wait(200)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        return found.get("kind") == "hang"
    if os.path.exists(out):
        d = json.load(open(out))
        return any(set(f.get("props") or []) & set(found["props"]) for f in d.get("found") or [])
    f, _ = crash_found(suite, tag, parse_progress(f"{SCRATCH}/prog{tag}"))
    return bool(f)


def load_known():
    f = os.path.join(HERE, "known-findings.txt")
    r = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m:
                r.append({"property": m.group(1), "match": re.compile(m.group(2)), "what": m.group(3)})
    return r


def main():
    global SCRATCH
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    c = CHECKS[prop]
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    SCRATCH = tempfile.mkdtemp(prefix="hsmc-" + prop + "-", dir=base)
    signal.signal(signal.SIGTERM, lambda *a: (cleanup(), sys.exit(2)))
    total = 780 if tier == "thorough" else c.get("quick_s", 100)
    only = None
    if len(sys.argv) > 4 and sys.argv[3] == "--replay":
        only = json.load(open(sys.argv[4]))
    bins, notes = build({SUITES[s]["bin"] for s in c["suites"]}, c["suites"])
    t_build = time.time() - T0
    if only:
        ok = replay(only, only.get("tier", tier), bins, 0)
        print(open(f"{SCRATCH}/log-replay-0", errors="replace").read()[-20000:])
        print("REPRODUCED" if ok else "NOT REPRODUCED")
        cleanup()
        sys.exit(1 if ok else 0)
    results = []
    if tier == "thorough":
        total = max(60, total - t_build)
    for k, s in enumerate(c["suites"]):
        left = total - sum(r["wall_s"] for r in results)
        share = left if k == len(c["suites"]) - 1 else max(left / (len(c["suites"]) - k), left - sum(SUITES[x].get("typ", 20) * (8 if tier == "thorough" else 2) for x in c["suites"][k + 1:]))
        if left < 2:
            notes.append(f"suite {s}: no time left")
            continue
        results.append(run_suite(s, tier, share, bins, prop))
    # findings
    mine, errors, others = [], [], 0
    for r in results:
        errors += r["errors"]
        for f in r["found"]:
            if "HARNESS" in f["props"]:
                errors.append(f["msg"])
            elif prop in f["props"]:
                mine.append(f)
            else:
                others += 1
    known = [k for k in load_known() if k["property"] == prop]
    seen_known, viols = set(), []
    for f in sorted(mine, key=lambda f: (len(f["case"]), f["case"])):
        hit = next((k for k in known if k["match"].search(f["case"] + " " + f["msg"])), None)
        if hit:
            seen_known.add(hit["what"])
        else:
            viols.append(f)
    for w in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {w}")
    uniq, rep = set(), []
    for f in viols:
        key = re.sub(r"[0-9#]+", "", f["msg"])[:60]
        if key in uniq:
            continue
        uniq.add(key)
        rep.append(f)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replays = os.path.join(HERE, "evidence", "replay")
    os.makedirs(replays, exist_ok=True)
    printed = 0
    for k, f in enumerate(rep[:8]):
        tries = 3 if k < 3 else 1
        again = sum(replay(f, tier, bins, k) for _ in range(tries))
        if again == 0 and f.get("kind") == "hang":
            notes.append("a hang that did not show again was dropped: " + f["case"])
            continue
        if again == 0 and f.get("kind") == "race" and sum(x.get("kind") == "race" for x in viols) == 1:
            tries += 3
            again = sum(replay(f, tier, bins, k) for _ in range(3))
            if again == 0:
                # the detector's memory is bounded, and so is its word: under a fixed schedule a race shows again
                notes.append("a single data race report that did not show again under its schedule was dropped: " + f["case"] + ": " + f["msg"][:200])
                continue
        path = os.path.join(replays, f"{prop}-{k}.json")
        f.update({"property": prop, "tier": tier, "reproduced": f"{again}/{tries}", "replay_cmd": f"./check.sh {prop} {tier} --replay {path}"})
        json.dump(f, open(path, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print("  " + f["msg"][:600])
        print(f"  suite {f['suite']} case {f['case']} choices {f['choices']} (seen {f['count']}x, reproduced {again}/{tries})")
        printed += 1
    # evidence
    hashes = set()
    for r in results:
        hashes |= {r["suite"] + h for h in r["hashes"]}
    states = max(len(hashes), sum(r["states_lo"] for r in results))
    ex = sum(r["executions"] for r in results)
    tr = sum(r["transitions"] for r in results)
    evs = sum(r["events"] for r in results)
    samples = [x for r in results for x in sorted(set(r["samples"]))[:6]][:24]
    cov = {"evaluations": ex, "distinct_nontrivial": states, "rule": c["rule"], "samples": samples or ["none"],
           "exhaustive": not any(r["capped"] for r in results) and not errors and len(results) == len(c["suites"]),
           "events_monitored": evs,
           "suites": {r["suite"]: {"cases": r["cases"], "executions": r["executions"], "transitions": r["transitions"], "states": max(len(r["hashes"]), r["states_lo"]),
                                   "events": r["events"], "bounds": r["bounds"], "counters": r["counters"], "capped": r["cap_reason"] if r["capped"] else "", "wall_s": r["wall_s"],
                                   "schedules_diverged": r["diverged"]} for r in results},
           "notes": notes, "findings_of_other_properties": others, "known_findings": sorted(seen_known), "build_s": round(t_build, 1)}
    if c["level"] == "model_checking":
        cov.update({"states": states, "transitions": tr, "traces_validated_against_impl": ex})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov, "wall_s": round(time.time() - T0, 2)}
    ev["result"] = "violated" if printed else ("error" if errors else "held")
    tmp = os.path.join(HERE, "evidence", f".{prop}.json")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))
    for e in errors[:5]:
        print("CHECK-ERROR: " + e[:2000])
    print(f"{prop} {tier}: {ev['result']}; {ex} executions, {states} states, {tr} transitions, {evs} events, exhaustive={cov['exhaustive']}, {ev['wall_s']} s")
    cleanup()
    if printed:
        sys.exit(1)
    sys.exit(2 if errors else 0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        cleanup()
        raise
