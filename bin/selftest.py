#!/usr/bin/env python3
"""selftest.py [ID...]: negative controls.

Records the traces of each property's drivers on the code in /repo, then falsifies
one result in a copy of each of some, cut after the event falsified, and counts
how many the specification still explains, by kind of event and result.  Not all
of these are failures: some results are free (a query may miss what is on the
border of its region).  Not a registered check: it says whether the checks look.
"""
import json, os, random, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from props import PROPS

RESULTS = ["ok", "ids", "v", "vs", "kv", "kv2", "rel", "same", "out", "got", "cells", "features", "status", "n", "rect", "r"]
PER = 10


def falsify(e, f, rnd):
    """Copies of the event with the result f changed."""
    x = e[f]
    if isinstance(x, bool):
        return [not x]
    if isinstance(x, int):
        return [x + 1] if f in ("status", "n") else []
    if isinstance(x, str):
        return ["nil" if x != "nil" else "00", x + "00"] if f == "v" else []
    if isinstance(x, list):
        out = []
        if x:
            i = rnd.randrange(len(x))
            out.append(x[:i] + x[i + 1:])
            out.append(x + [x[i]])
            if len(x) > 1 and x[0] != x[-1]:
                out.append([x[-1]] + x[1:-1] + [x[0]])
        elif f == "ids":
            out.append(["99"])
        return out
    return []


def argument(e, f):
    """Whether f is no result of this event: an argument, or left over when there is none."""
    if f == "v" and e["op"] in ("set", "merge", "odd"):
        return True
    if f in ("kv", "v") and e["op"] in ("call", "rcall"):
        return True
    return f != "ok" and e.get("ok") is False


def main():
    rnd = random.Random(1)
    for pid in sys.argv[1:] or sorted(PROPS):
        P = PROPS[pid]
        work = tempfile.mkdtemp(prefix="verif-self-")
        try:
            exe = check.build(work, P.get("bins", {}), P.get("crash"))
            for driver, spec in P["traces"]:
                tr, _ = check.drive(work, exe, driver, 850)
                traces = json.load(open(tr))
                rnd.shuffle(traces)
                done, bad = {}, []
                for t in traces:
                    for i in rnd.sample(range(len(t["ev"])), min(len(t["ev"]), 40)):
                        e = t["ev"][i]
                        for f in RESULTS:
                            if f not in e or (f == "r" and e["op"] != "rect") or (f == "n" and e["op"] not in ("try",)):
                                continue
                            if argument(e, f):
                                continue
                            k = (e["op"], f)
                            if done.get(k, 0) >= PER:
                                continue
                            for y in falsify(e, f, rnd):
                                if y == e[f]:
                                    continue
                                done[k] = done.get(k, 0) + 1
                                bad.append((k, e[f], y, dict(t, ev=t["ev"][:i] + [dict(e, **{f: y})])))
                path = os.path.join(work, "bad.json")
                json.dump([b[3] for b in bad], open(path, "w"))
                r = check.tlc(work, spec + ".tla", spec + ".cfg", env={"TRACES": path})
                if "No error has been found" not in r["out"]:
                    print(pid, driver, "TLC failed", r["out"][-1500:])
                    continue
                seen = {int(x) for x in re.findall(r'^<<"EXPLAINED", (\d+)>>', r["out"], re.M)}
                acc = {}
                for i, b in enumerate(bad):
                    if i + 1 in seen:
                        acc.setdefault(b[0], []).append(b)
                print("%s %s: %d falsified, %d rejected" % (pid, driver, len(bad), len(bad) - len(seen)))
                for k, bs in sorted(acc.items()):
                    ev = bs[0][3]["ev"][-1]
                    print("   accepted %d of %d: %s.%s   e.g. %s -> %s in %s" % (
                        len(bs), done[k], k[0], k[1], json.dumps(bs[0][1])[:60], json.dumps(bs[0][2])[:60], json.dumps(ev)[:160]))
                sys.stdout.flush()
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
