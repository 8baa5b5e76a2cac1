"""Runs one check, writes its evidence and its replay file, applies the known-findings list."""
import importlib
import json
import os
import re
import sys
import time
import traceback

from .sa import facts

VERIF = facts.VERIF
MODULES = {}


def registry():
    d = os.path.join(VERIF, "src", "checks")
    reg = {}
    for fn in sorted(os.listdir(d)):
        if fn.endswith(".py") and not fn.startswith("_"):
            with open(os.path.join(d, fn)) as f:
                m = re.search(r"^CHECKS = \{(.*?)\}", f.read(), re.M | re.S)
            if m:
                for pid in re.findall(r'"([A-Z]\d{2,3})"', m.group(1)):
                    reg[pid] = fn[:-3]
    return reg


class Out:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.an = {}
        self.rules = []
        self.vs = []
        self.assume = []

    def analysed(self, **kw):
        for k, v in kw.items():
            if k in self.an and isinstance(v, int) and isinstance(self.an[k], int):
                self.an[k] += v
            elif k in self.an and isinstance(v, list) and isinstance(self.an[k], list):
                self.an[k] += [x for x in v if x not in self.an[k]]
            else:
                self.an[k] = v

    def rule(self, r):
        self.rules.append(r)

    def assumption(self, a):
        self.assume.append(a)

    def violations(self, vs):
        for v in vs:
            self.violation(v["key"], v["function"], v["where"], v["message"], v.get("path", ""))

    def violation(self, key, function, where, message, path=""):
        v = {"key": key, "function": function, "where": where, "message": message, "path": path}
        if not any(w["key"] == key and w["function"] == function and w["message"] == message for w in self.vs):
            self.vs.append(v)


def load_known():
    res = []
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        with open(p) as f:
            res = json.load(f)["findings"]
    return res


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    reg = registry()
    if pid not in reg:
        print("no check for %s" % pid, file=sys.stderr)
        return 2
    out = Out(pid, tier)
    status = 0
    err = None
    try:
        mod = importlib.import_module("src.checks." + reg[pid])
        mod.CHECKS[pid](out)
    except facts.Broken as e:
        status, err = 2, str(e)
    except Exception:
        status, err = 2, traceback.format_exc()
    known = [k for k in load_known() if k["property"] == pid and k.get("status") == "known"]
    fresh, seen_known = [], []
    for v in out.vs:
        hit = None
        for k in known:
            if k["key"] == v["key"] and k["function"] == v["function"] and k.get("message", v["message"]) == v["message"]:
                hit = k
        if hit:
            seen_known.append((hit, v))
        else:
            fresh.append(v)
    os.makedirs(os.environ.get("SM_EVIDENCE", os.path.join(VERIF, "evidence")), exist_ok=True)
    seed = os.environ.get("VERIF_SEED", "1")
    n = sum(len(v) if isinstance(v, (list, dict)) else (v if isinstance(v, int) else 0) for v in out.an.values())
    evdir = os.environ.get("SM_EVIDENCE", os.path.join(VERIF, "evidence"))
    ev = {
        "property": pid, "tier": tier, "seed": int(seed) if seed.isdigit() else 1, "level": "other",
        "coverage": {
            "explanation": " ".join(out.rules) or "analysis did not complete",
            "analysed": out.an,
            "units_parsed": len(facts.units()),
            "violations_found": len(out.vs),
        },
        "assumptions": out.assume,
        "wall_s": round(time.time() - t0, 3),
    }
    if out.vs:
        ev["coverage"]["violation_list"] = out.vs
    if err:
        ev["coverage"]["error"] = err[-2000:]
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for k, v in seen_known:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["where"], v["message"]))
    if fresh:
        rd = os.path.join(evdir, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "violations": fresh, "rerun": "python3 /verif/check.py %s" % pid}, f, indent=1, default=str)
            f.write("\n")
        for v in fresh[:40]:
            print("%s: %s: in %s: %s [%s]" % (pid, v["where"], v["function"], v["message"], v["key"]))
            if v.get("path"):
                print("    via %s" % v["path"])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if status:
        print("%s: analysis cannot decide: %s" % (pid, err), file=sys.stderr)
        return status
    print("%s: holds (%s)" % (pid, ", ".join("%s=%s" % (k, v if isinstance(v, (int, str)) else len(v) if v is not None else None) for k, v in out.an.items())))
    return 0
