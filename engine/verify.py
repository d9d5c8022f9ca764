"""Run the harnesses of one IR file: generate obligations, discharge them, check reachability."""
import json
import os
import sys
import threading
import time
import traceback
from fractions import Fraction
from terms import *
import smt
import symex


def exactness(pc, goal):
    """True when a satisfying assignment of the negated obligation is a genuine counterexample"""
    ts = [p for p in pc if type(p) is Term] + ([goal] if type(goal) is Term else [])
    return not atoms(ts, lambda y: y.op in ("sum", "fold", "forall", "fn", "floor", "idiv", "imod")
                     or (y.op == "sel" and (y.args[0].startswith(("u:", "undef", "A!", "sk!"))))
                     or (y.op == "var" and "!" in y.args[0]))


def model_lines(model):
    out = []
    if not model:
        return out
    for k, v in sorted(model["vars"].items()):
        if "!" in k or "@" in k:
            continue
        out.append("%s=%s" % (k, num(v)))
    for a, d in sorted(model["sels"].items()):
        if a.startswith(("u:", "undef", "A!", "sk!")):
            continue
        for i, v in sorted(d.items()):
            if len(i) == 1 and type(i[0]) is int:
                out.append("%s[%d]=%s" % (a, i[0], num(v)))
    return out


def num(v):
    if type(v) is bool:
        return str(int(v))
    if type(v) is int:
        return str(v)
    try:
        return "%.17g" % float(v)
    except OverflowError:
        return "inf" if v > 0 else "-inf"


class HarnessResult:
    def __init__(self, name):
        self.name = name
        self.obligations = []      # dicts
        self.error = None
        self.covers = {}
        self.seconds = 0.0
        self.paths = 0
        self.summaries = 0
        self.notes = []
        self.safety = {}
        self.bounded = False


def run_one(eng, root, opts):
    h = root[3:] if root.startswith("vh_") else root
    r = HarnessResult(h)
    t0 = time.time()
    eng.covered = {}
    eng.log = []
    eng.summaries = []
    eng.safety = {"checked": 0, "assumed": 0}
    eng.steps = 0
    eng.deadline = t0 + opts.get("deadline", 300)
    try:
        outs = eng.run_harness(root)
        for o in outs:
            if o[0] == "throw":
                eng.obligation(o[1], False, "no exception escapes")
            elif o[0] == "ret":
                r.paths += 1
    except Unsupported as e:
        r.error = "unsupported: %s" % e
    except symex.NeedSummary:
        r.error = "unsupported: stray loop"
    except (symex.MergeFail, RecursionError) as e:
        r.error = "unsupported: %s" % type(e).__name__
    except MemoryError:
        r.error = "unsupported: memory"
    r.notes = eng.log[:20]
    r.summaries = len(eng.summaries)
    r.safety = dict(eng.safety)
    obls = eng.obls
    memo = {}
    tmo = opts.get("timeout_ms", 8000)
    for ob in obls:
        key = (tuple(p.id if type(p) is Term else p for p in ob["pc"]), ob["goal"].id if type(ob["goal"]) is Term else ob["goal"], ob["label"])
        if key in memo:
            continue
        memo[key] = 1
        d = {"label": ob["label"]}
        if time.time() > eng.deadline:
            d.update(status="unknown", backend="none", seconds=0.0, reason="time budget")
            r.obligations.append(d)
            continue
        try:
            res = smt.prove(list(ob["pc"]), ob["goal"], timeout_ms=tmo)
        except Unsupported as e:
            res = smt.Result("unknown", "none", reason=str(e))
        except RecursionError:
            res = smt.Result("unknown", "none", reason="recursion")
        if res.status == "refuted" and ob["goal"] is False:
            # reachable failure: the path condition itself is the counterexample
            pass
        d.update(status=res.status, backend=res.backend, seconds=res.seconds, reason=res.reason)
        if res.status != "proved":
            d["exact"] = res.status == "refuted" and exactness(ob["pc"], ob["goal"])
            d["model"] = model_lines(res.model)
            try:
                d["goal"] = show(ob["goal"], 8)[:1500]
                d["pc"] = [show(p, 6)[:400] for p in ob["pc"]][:30]
            except RecursionError:
                pass
        r.obligations.append(d)
    # reachability of the contracts (vacuity guard)
    for lab, pcs in eng.covered.get(root, {}).items():
        ok = "unreached"
        for pc in pcs[:3]:
            facts = []
            for p in pc:
                smt.conjuncts(p, facts)
            try:
                res, m, _ = smt.z3_check([f for f in facts if f is not True], True, 1000, want_model=False)
            except Unsupported:
                res = "unknown"
            if res == "sat":
                ok = "reached"
                break
            if res == "unknown":
                ok = "unknown"
        r.covers[lab] = ok
    r.seconds = time.time() - t0
    return r


def run_file(path, opts=None, only=None):
    opts = opts or {}
    out = {}

    def work():
        try:
            eng = symex.Engine(path, {"mode": opts.get("mode", "proof"), "bound": opts.get("bound", 2)})
            roots = eng.raw["roots"]
            res = []
            for root in roots:
                if only and root[3:] not in only:
                    continue
                res.append(run_one(eng, root, opts))
            out["res"] = res
            out["entered"] = eng.entered
            out["direct"] = eng.direct
            out["assumed"] = eng.assumed
        except Exception:
            out["error"] = traceback.format_exc()

    threading.stack_size(1 << 30)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    return out


if __name__ == "__main__":
    if sys.argv[1] == "--json":
        opts = json.loads(sys.argv[2])
        o = run_file(sys.argv[3], opts, only={sys.argv[4]})
        if "error" in o:
            d = {"name": sys.argv[4], "obligations": [], "error": "verifier: " + o["error"][-600:], "covers": {}, "seconds": 0, "paths": 0, "summaries": 0, "safety": {}, "notes": []}
        elif not o["res"]:
            d = {"name": sys.argv[4], "obligations": [], "error": "contract not found in the extracted code", "covers": {}, "seconds": 0, "paths": 0, "summaries": 0, "safety": {}, "notes": []}
        else:
            d = dict(o["res"][0].__dict__)
        d["entered"] = o.get("entered", {})
        d["direct"] = o.get("direct", {})
        d["assumed"] = o.get("assumed", {})
        d["stats"] = smt.STATS
        print(json.dumps(d, default=str))
        sys.stdout.flush()
        os._exit(0)
    o = run_file(sys.argv[1], only=set(sys.argv[2:]) or None)
    if "error" in o:
        print(o["error"])
        sys.exit(2)
    for r in o["res"]:
        print("==", r.name, "%.2fs" % r.seconds, "paths", r.paths, "summaries", r.summaries, r.safety, r.covers, r.error or "")
        for n in r.notes:
            print("   note:", n)
        for d in r.obligations:
            print("   ", d["status"], d["backend"], "%.2f" % d["seconds"], d["label"], d.get("model", ""), d.get("reason", ""))
            if d["status"] != "proved":
                print("       goal", d.get("goal"))
                for p in d.get("pc", []):
                    print("       pc", p)
