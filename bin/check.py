#!/usr/bin/env python3
"""check.py ID [--thorough | --replay FILE]: decide one property of the code in /repo.

1. build the harness against /repo's working tree;
2. model check the specification of the property (exhaustive, small bounds);
3. run the property's driver on the real code, which records traces;
4. TLC decides whether every trace is a behaviour of the specification.

exit 0: held on everything explored; exit 1 and a VIOLATION line: a recorded
behaviour of the real code is not one the specification allows; anything else:
the machinery failed and nothing is known.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC, HARNESS = os.path.join(HERE, "spec"), os.path.join(HERE, "harness")
sys.path.insert(0, os.path.join(HERE, "bin"))
import overlay  # noqa: E402
from props import PROPS  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GO111MODULE="on")
ENV.setdefault("HOME", "/root")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"


class Broken(Exception):
    """The machinery failed: no verdict."""


class Timeout(Broken):
    pass


def run(cmd, timeout, limit=0, **kw):
    if limit:
        kw["preexec_fn"] = lambda: resource.setrlimit(resource.RLIMIT_DATA, (limit, limit))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        raise Timeout("timeout after %ds: %s\n%s" % (timeout, " ".join(map(str, cmd))[:300], out[-2000:]))
    return p.returncode, out


def build(work, bins, crash):
    exe = os.path.join(work, "drv")
    # -mod=mod may touch go.mod and go.sum: build from a copy
    src = os.path.join(work, "src")
    shutil.copytree(HARNESS, src)
    more = ["-overlay", overlay.make(work, ENV), "-tags", "crash"] if crash else []
    rc, out = run(["go", "build", *more, "-o", exe, "."], 800, cwd=src, env=ENV)
    if rc != 0:
        raise Broken("the harness does not build against /repo:\n" + out[-4000:])
    for var, pkg in bins.items():
        ENV[var] = os.path.join(work, var.lower())
        rc, out = run(["go", "build", "-o", ENV[var], pkg], 800, cwd=src, env=ENV)
        if rc != 0:
            raise Broken("%s does not build:\n%s" % (pkg, out[-4000:]))
    return exe


def tlc(work, spec, cfg, env=None, timeout=800, workers=8, heap="6g", extra=()):
    meta = tempfile.mkdtemp(dir=work, prefix="meta")
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + work,
           "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           *extra, "-config", cfg, spec]
    t = time.time()
    rc, out = run(cmd, timeout, cwd=SPEC, env=dict(ENV, **(env or {})))
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
    gen, dist, left = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0, -1)
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist, "left": left, "s": round(time.time() - t, 1)}


def drive(work, exe, driver, timeout, n=[0]):
    """Record traces; a crash of the whole process is the code's, if it repeats."""
    n[0] += 1
    out = os.path.join(work, "rec%d" % n[0])
    os.makedirs(out)

    def go(dst, *more):
        return run([exe, "-p", driver, "-seed", str(SEED), "-tier", TIER, "-out", dst, *more], timeout, (8 if TIER == "quick" else 20) << 30,
                   env=dict(ENV, TMPDIR=work))
    rc, log = go(out)
    tr = os.path.join(out, "traces.json")
    if rc == 0:
        return tr, None
    if rc in (3, -9, 137) or not re.search(r"^(panic: |fatal error: |runtime: |unexpected fault|SIG)", log, re.M):
        raise Broken("driver %s ended with %s:\n%s" % (driver, rc, log[-3000:]))
    crash = log
    try:
        running = open(os.path.join(out, "running")).read()
    except OSError:
        raise Broken("driver %s ended before its first scenario:\n%s" % (driver, log[-3000:]))
    idx = [i for i in running.split(",") if i]
    for only in idx + [running]:
        for _ in range(2):
            o2 = tempfile.mkdtemp(dir=work, prefix="again")
            rc, log = go(o2, "-only", only, "-j", "1" if only != running else "6")
            if rc not in (0, 3, -9, 137) and re.search(r"^(panic: |fatal error: )", log, re.M):
                return None, {"scenarios": only, "driver": driver, "log": log[-6000:]}
            if only == running and rc == 0:
                break
    raise Broken("driver %s crashed once and not again:\n%s" % (driver, crash[-3000:]))


def brief(v, n=400):
    s = json.dumps(v)
    return v if len(s) <= n else s[:n] + "..."


def gist(out):
    """What TLC says is wrong, and its last words."""
    says = [l[:600] for l in out.splitlines() if re.match(r"(Error|.*Exception|.*Overflow|.*OutOfMemory|Attempt|In |The )", l)]
    return "\n".join(says[:12]) + "\n...\n" + out[-1500:]


def validate(work, spec, traces_path):
    traces = json.load(open(traces_path))
    if not traces:
        raise Broken("no traces recorded")
    part = False
    try:
        r = tlc(work, spec + ".tla", spec + ".cfg", env={"TRACES": traces_path}, timeout=300 if TIER == "quick" else 3600)
    except Timeout:
        # too much was recorded: what the shorter half of it shows counts
        traces = sorted(traces, key=lambda t: len(json.dumps(t)))[:(len(traces) + 1) // 2]
        traces_path, part = os.path.join(work, "half.json"), True
        json.dump(traces, open(traces_path, "w"))
        r = tlc(work, spec + ".tla", spec + ".cfg", env={"TRACES": traces_path}, timeout=300)
    want = sum(len(t["ev"]) + 1 for t in traces)
    r["events"] = want - len(traces)
    r["ntraces"] = len(traces)
    if r["rc"] != 0 or "No error has been found" not in r["out"] or r["left"] != 0:
        raise Broken("TLC failed on %s (rc %s):\n%s" % (spec, r["rc"], gist(r["out"])))
    seen = {int(x) for x in re.findall(r'^<<"EXPLAINED", (\d+)>>', r["out"], re.M)}
    rej = [t for i, t in enumerate(traces) if i + 1 not in seen]
    if part and not rej:
        raise Broken("%s: half of the traces are explained, the others take too long" % spec)
    if not rej:
        if r["distinct"] != want:
            raise Broken("%s: %d distinct states for %d events in %d traces\n%s" %
                         (spec, r["distinct"], r["events"], len(traces), r["out"][-1500:]))
        return r, traces, None
    # the shortest rejected trace, alone: the behaviour ends at the rejected event
    t = min(rej, key=lambda t: len(json.dumps(t)))
    one = os.path.join(work, "rejected.json")
    json.dump([t], open(one, "w"))
    r1 = tlc(work, spec + ".tla", spec + ".cfg", env={"TRACES": one}, workers=1)
    l = r1["distinct"]
    if r1["rc"] != 0 or not 1 <= l <= len(t["ev"]):
        raise Broken("%s: trace %s is rejected, and alone is not:\n%s" % (spec, t["name"], r1["out"][-3000:]))
    r["rejected"] = len(rej)
    return r, traces, {"trace": t["name"], "spec": spec, "rejected_event": l, "rejected_traces": len(rej),
                       "event": t["ev"][l - 1],
                       "full": {"name": t["name"], "mode": t.get("mode", "rw"), "ev": t["ev"][:l]}}


def replay(work, path):
    v = json.load(open(path))
    if "full" not in v:
        print(json.dumps(v, indent=1))
        return 1
    f = os.path.join(work, "t.json")
    json.dump([v["full"]], open(f, "w"))
    _, _, bad = validate(work, v["spec"], f)
    for i, e in enumerate(v["full"]["ev"]):
        if i + 12 >= len(v["full"]["ev"]):
            print(i + 1, json.dumps(brief(e, 1500)))
    print("rejected at event %d" % bad["rejected_event"] if bad else "accepted")
    return 1 if bad else 0


def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return replay(work, sys.argv[3])
        return decide(pid, P, work, t0)
    except Broken as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, P, work, t0):
    exe = build(work, P.get("bins", {}), P.get("crash"))
    states = trans = validated = events = 0
    models, refuted, samples, violation, kinds = [], [], [], None, {}
    recs = []

    def model(spec, cfg, env=None):
        r = tlc(work, spec + ".tla", cfg + ".cfg", env=env, timeout=600 if TIER == "quick" else 3600)
        if r["rc"] != 0 or "No error has been found" not in r["out"] or r["left"] != 0:
            raise Broken("the specification %s/%s fails its own check:\n%s" % (spec, cfg, gist(r["out"])))
        models.append({"spec": spec, "config": cfg, "generated": r["generated"], "distinct": r["distinct"], "s": r["s"]})
        return r["distinct"], r["generated"]

    files = []
    for m in P.get("scripts", []):
        f = os.path.join(work, "scripts", m)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        d, g = model(m, m, {"SCRIPTS": f})
        states, trans = states + d, trans + g
        models[-1]["scripts"] = sum(1 for _ in open(f))
        files.append(f)
    ENV["SCRIPTS"] = ",".join(files)
    for driver, spec in P["traces"]:
        tr, crash = drive(work, exe, driver, 850 if TIER == "quick" else 7200)
        if crash:
            violation = {"trace": "the process of the driver crashed", **crash}
            break
        r, traces, bad = validate(work, spec, tr)
        recs.append((driver, spec, r))
        states, trans = states + r["distinct"], trans + r["generated"]
        validated += r["ntraces"] - r.get("rejected", 0)
        events += r["events"]
        for t in traces:
            for e in t["ev"]:
                kinds[e["op"]] = kinds.get(e["op"], 0) + 1
        for t in traces[:2]:
            samples.append({"driver": driver, "trace": t["name"], "events": len(t["ev"]),
                            "first": [brief(e) for e in t["ev"][:12]]})
        if bad:
            violation = bad
            break
    if not violation:
        for m in P.get("models", []):
            if len(m) > 2 and m[2] == "thorough" and TIER != "thorough":
                continue
            d, g = model(m[0], m[1])
            states, trans = states + d, trans + g
        for m in P.get("refuted", []):
            r = tlc(work, m[0] + ".tla", m[1] + ".cfg", timeout=600)
            if not re.search(r"^Error: (Invariant \S+ is violated|Action property \S+ .*is violated|Temporal properties were violated)", r["out"], re.M):
                raise Broken("the specification %s does not refute %s:\n%s" % (m[0], m[1], gist(r["out"])))
            refuted.append(m[1])
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": validated,
            "events_of_the_real_code": events, "events_by_action": kinds,
            "trace_checks": [{"driver": d, "spec": s, "traces": r["ntraces"], "events": r["events"],
                              "distinct": r["distinct"], "tlc_s": r["s"]} for d, s, r in recs],
            "exhaustive_models": models, "mistakes_the_specification_refutes": refuted, "samples": samples[:4],
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    while len(json.dumps(ev)) > 60000 and ev["coverage"]["samples"]:
        ev["coverage"]["samples"].pop()
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for f in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, f))
    if violation:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", "%s.json" % pid)
        violation["property"] = pid
        json.dump(violation, open(path, "w"))
        print("trace: %s" % violation["trace"])
        if "event" in violation:
            print("event %s is not one the specification allows: %s" %
                  (violation["rejected_event"], json.dumps(brief(violation["event"], 1500))))
        else:
            print(violation.get("log", "")[-1500:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s traces=%d events=%d states=%d transitions=%d wall=%.1fs" %
          (pid, validated, events, states, trans, time.time() - t0))
    return 0


def known(pid):
    try:
        lines = open(os.path.join(HERE, "KNOWN_FINDINGS")).read().splitlines()
    except OSError:
        return []
    return [l.split(None, 2)[2] for l in lines if l.startswith("finding: property=%s " % pid)]


if __name__ == "__main__":
    sys.exit(main())
