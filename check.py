#!/usr/bin/env python3
"""check.py PROPERTY | --setup

Decides one property: extracts the functions under contract from /repo's current working tree
(clang -> IR), generates the obligations of every contract named PROPERTY_*, discharges them, replays
counterexamples against the same functions compiled natively, and writes evidence/PROPERTY.json.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
PY = shutil.which("python3-vt") or sys.executable
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
QUICK = TIER == "quick"
BUDGET = 780 if QUICK else 6000
T0 = time.time()
JOBS = max(2, min(8, os.cpu_count() or 4))

INC = ["-I" + os.path.join(HERE, "stubs"), "-I" + os.path.join(HERE, "runtime"), "-I" + os.path.join(REPO, "src"), "-I/usr/include/eigen3"]
SYMFLAGS = ["-w", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-access-control", "-ffp-contract=off", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_MAX_ALIGN_BYTES=0", "-DEIGEN_MAX_STATIC_ALIGN_BYTES=0",
            "-DVF_SYMBOLIC", "-I" + os.path.join(HERE, "runtime", "sym")]
NATFLAGS = ["-w", "-ffunction-sections", "-fdata-sections", "-Wl,--gc-sections", "-std=c++17", "-O1", "-g", "-fno-access-control", "-ffp-contract=off"]

TRUSTED = [
    "clang-18 front end and the LLVM passes sroa, early-cse, simplifycfg, mergereturn, loop-simplify, lcssa (source to IR)",
    "engine/irdump.cpp (IR to the verifier's input format)",
    "engine/symex.py, loops.py, models.py (obligation generator of this framework)",
    "engine/terms.py, ring.py, smt.py (simplifier and rational-function normaliser of this framework)",
    "z3 and cvc5",
    "libstdc++ containers other than std::vector are verified as compiled; std::vector is replaced by runtime/sym/vector for the proof and the real one is used natively",
]
ASSUME = [
    "double arithmetic is treated as exact real arithmetic and literals as the short decimal, fraction or multiple of pi they denote; the native runs use machine arithmetic with a tolerance",
    "machine integers are treated as mathematical integers",
    "MFEM, MPI and GSL are represented by the stand-in headers in stubs/ (assumed contracts of those libraries)",
]


def level(results):
    """proof when some contract of the property is stated for every size, other when all have fixed sizes or are only run"""
    return "proof" if any("scope" not in opts and opts.get("mode") not in ("bounded", "native") for _, opts, _, _ in results.values()) else "other"


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return -9, "", "timeout"


def irdump():
    src = os.path.join(HERE, "engine", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    exe = os.path.join(BUILD, "irdump-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mktemp(dir=BUILD, prefix="irdump.tmp.")
        rc, o, e = run(["g++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
                        "-D__STDC_LIMIT_MACROS", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], 300)
        if rc != 0:
            raise SystemExit("irdump does not build:\n" + e[-3000:])
        os.replace(tmp, exe)
    return exe


def runtime_obj():
    src = os.path.join(HERE, "runtime", "native.cpp")
    h = hashlib.sha256(open(src, "rb").read() + open(os.path.join(HERE, "runtime", "verif.h"), "rb").read()).hexdigest()[:12]
    obj = os.path.join(BUILD, "native-%s.o" % h)
    if not os.path.exists(obj):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mktemp(dir=BUILD, prefix="native.tmp.", suffix=".o")
        rc, o, e = run(["g++"] + NATFLAGS + INC + ["-c", src, "-o", tmp], 300)
        if rc != 0:
            raise SystemExit("native runtime does not build:\n" + e[-3000:])
        os.replace(tmp, obj)
    return obj


def contracts(prop):
    """[(unit file, harness, options)]"""
    out = []
    for u in sorted(glob.glob(os.path.join(HERE, "units", "*.cpp"))):
        prev = ""
        for line in open(u):
            m = re.match(r"\s*VF_HARNESS\((%s_\w+)\)" % re.escape(prop), line)
            if m:
                opts = dict(kv.split("=", 1) for kv in prev[3:].split()) if prev.startswith("//@") else {}
                out.append((u, m.group(1), opts))
            prev = line.strip()
    return out


class Unit:
    def __init__(self, path, work):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.ir = os.path.join(work, self.name + ".json")
        self.bc = os.path.join(work, self.name + ".bc")
        self.exe = os.path.join(work, self.name + ".exe")
        self.sym_err = self.nat_err = None
        self.sec = 0.0

    def extract(self):
        t = time.time()
        rc, o, e = run(["clang-18"] + SYMFLAGS + INC + ["-emit-llvm", "-c", self.path, "-o", self.bc], 300)
        if rc != 0:
            self.sym_err = e[-3000:]
            return
        rc, o, e = run([irdump(), self.ir, "vh_", self.bc], 300)
        if rc != 0:
            self.sym_err = "irdump: " + e[-3000:]
        self.sec = time.time() - t

    def native(self):
        rc, o, e = run(["g++"] + NATFLAGS + INC + [self.path, runtime_obj(), "-o", self.exe], 300)
        if rc != 0:
            self.nat_err = e[-3000:]


def verify(unit, h, opts):
    """run the verifier on one contract in its own process"""
    if opts.get("mode") == "native":
        return {"name": h, "obligations": [], "error": "only run, for " + opts.get("scope", "sampled inputs").replace("_", " "), "covers": {}, "seconds": 0, "paths": 0, "summaries": 0, "safety": {}, "entered": {}, "assumed": {}}
    deadline = float(opts.get("deadline", 200 if QUICK else 900))
    deadline = max(10.0, min(deadline, BUDGET - 120 - (time.time() - T0)))
    o = {"deadline": deadline, "timeout_ms": int(opts.get("timeout", 8000 if QUICK else 30000)), "mode": opts.get("mode", "proof"), "bound": int(opts.get("bound", 2))}
    cmd = ["bash", "-c", "ulimit -v 9000000; exec \"$@\"", "x", PY, os.path.join(HERE, "engine", "verify.py"), "--json", json.dumps(o), unit.ir, h]
    rc, out, err = run(cmd, deadline + 60)
    if rc == 0:
        try:
            return json.loads(out)
        except ValueError:
            pass
    return {"name": h, "obligations": [], "error": "verifier ended with %s: %s" % (rc, err.strip()[-300:]), "covers": {}, "seconds": 0, "paths": 0, "summaries": 0, "safety": {}, "entered": {}, "assumed": {}}


def sample(unit, h, n, secs, seed):
    rc, out, err = run([unit.exe, "sample", h, str(seed), str(n), str(secs)], secs + 60)
    return rc, out


def replay(unit, h, lines, work, tag):
    f = os.path.join(work, "%s.%s.in" % (h, tag))
    with open(f, "w") as fp:
        fp.write("\n".join(lines) + "\n")
    worst = (0, "")
    for s in range(1, 9):
        rc, out, err = run([unit.exe, "replay", h, f, str(SEED * 100 + s)], 60)
        if rc == 1:
            return rc, out
        if "done=1" in out:
            worst = (0, out)
    return worst


def done_count(out):
    m = re.search(r"done=(\d+)", out)
    return int(m.group(1)) if m else 0


def known_findings():
    """harnesses whose failure is a recorded finding of the unchanged tree"""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) contract=(\S+) (.*)", l)
            if m:
                out[m.group(2)] = (m.group(1), m.group(3).strip())
    return out


def main(prop):
    cs = contracts(prop)
    if not cs:
        print("no contracts for %s" % prop)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    irdump()
    runtime_obj()
    known = known_findings()
    work = tempfile.mkdtemp(dir=BUILD, prefix="run-%s-" % prop)
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    try:
        units = {u: Unit(u, work) for u, _, _ in cs}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(u.extract) for u in units.values()] + [ex.submit(u.native) for u in units.values()]
            for f in fs:
                f.result()
        broken = [u for u in units.values() if u.sym_err and u.nat_err]
        for u in units.values():
            if u.sym_err:
                print("unit %s cannot be extracted: %s" % (u.name, u.sym_err[:1500]))
            elif u.nat_err:
                print("unit %s does not build natively: %s" % (u.name, u.nat_err[:1500]))
        if broken:
            print("ERROR: the code under contract does not compile in %s" % ", ".join(u.name for u in broken))
            return 2
        results = {}

        def job(item):
            path, h, opts = item
            u = units[path]
            if u.sym_err:
                r = {"name": h, "obligations": [], "error": "unit cannot be extracted", "covers": {}, "seconds": 0, "paths": 0, "summaries": 0, "safety": {}, "entered": {}, "assumed": {}}
            else:
                r = verify(u, h, opts)
            return path, h, opts, r, native_side(u, h, r, opts)

        def native_side(u, h, r, opts):
            """-> dict(found, text, label, runs, kind)"""
            nat = {"found": None, "runs": 0, "witness": 0}
            if u.nat_err:
                return nat
            bad = [o for o in r["obligations"] if o["status"] == "refuted"]
            open_ = [o for o in r["obligations"] if o["status"] not in ("proved", "refuted")]
            bad.sort(key=lambda o: not o.get("exact"))
            for k, o in enumerate(bad[:12]):
                rc, out = replay(u, h, o.get("model") or [], work, str(k))
                if rc == 1:
                    nat["found"] = out
                    nat["how"] = "counterexample of obligation: " + o["label"]
                    return nat
                o["replayed"] = "ran" if out else "not runnable"
            secs = float(opts.get("sample", 1.0))
            if bad:
                secs = 20.0 if QUICK else 120.0
            elif open_ or r["error"]:
                secs = 12.0 if QUICK else 120.0
            rc, out = sample(u, h, 2000000 if (bad or open_ or r["error"]) else 400, secs, SEED)
            nat["runs"] = done_count(out)
            if rc == 1:
                nat["found"] = out
                nat["how"] = "seeded run of the contract" + (" (the verifier refuted: %s)" % bad[0]["label"] if bad else "")
            return nat

        with cf.ThreadPoolExecutor(JOBS) as ex:
            for path, h, opts, r, nat in ex.map(job, cs):
                results[h] = (path, opts, r, nat)

        # ---- verdicts
        viols, knownhits, undecided, boundeds = [], [], [], []
        backends, nobl, ndis, ssec = {}, 0, 0, 0.0
        entered, assumed, direct = {}, {}, {}
        covers, vacuous = 0, []
        safety = {"checked": 0, "assumed": 0}
        nsum = npaths = nruns = bobl = bdis = 0
        per = []
        for h, (path, opts, r, nat) in sorted(results.items()):
            obls = r["obligations"]
            proved = [o for o in obls if o["status"] == "proved"]
            bounded = opts.get("mode") == "bounded" or "scope" in opts and opts.get("mode") != "native"
            partial = bool(r["error"]) and bool(obls)  # not every path was reached: what was discharged is not a proof of the contract
            per.append({"contract": h, "unit": os.path.relpath(path, HERE), "obligations": len(obls), "discharged": len(proved), "paths": r["paths"], "loop_summaries": r["summaries"],
                        "seconds": round(r["seconds"], 3), "bounded": bounded, "error": r["error"], "native_runs": nat["runs"], "obligations_detail": [
                            {"label": o["label"], "status": o["status"], "backend": o["backend"], "seconds": round(o["seconds"], 4)} for o in obls][:60]})
            for o in obls:
                ssec += o["seconds"]
            nruns += nat["runs"]
            npaths += r["paths"]
            nsum += r["summaries"]
            for k in safety:
                safety[k] += r["safety"].get(k, 0)
            for k, v in r["entered"].items():
                entered[k] = entered.get(k, 0) + v
            for k, v in r.get("direct", {}).items():
                direct[k] = direct.get(k, 0) + v
            for k, v in r["assumed"].items():
                assumed[k] = assumed.get(k, 0) + v
            if bounded:
                boundeds.append("%s: %s; %d of %d obligations discharged" % (h, "sizes up to %s enumerated" % opts.get("bound", "2") if "scope" not in opts else "for " + opts["scope"].replace("_", " "), len(proved), len(obls)))
            if bounded or partial:
                bobl += len(obls)
                bdis += len(proved)
            else:
                nobl += len(obls)
                ndis += len(proved)
                for o in proved:
                    b = o["backend"].split(" (")[0]
                    backends[b] = backends.get(b, 0) + 1
            for lab, c in r["covers"].items():
                covers += c == "reached"
            if not r["error"] and (not obls or not (any(c == "reached" for c in r["covers"].values()) or nat["runs"])):
                vacuous.append(h)
            if r["error"]:
                boundeds.append("%s: outside the verifier's reach (%s); %d seeded native runs stand in" % (h, r["error"][:200], nat["runs"]))
            if nat["found"]:
                if h in known:
                    knownhits.append((h, known[h][1]))
                else:
                    viols.append((h, nat.get("how", ""), nat["found"], r))
                continue
            refuted = [o for o in obls if o["status"] == "refuted"]
            nffi = [o for o in refuted if o.get("exact") and o.get("replayed") == "not runnable" and nat["runs"] == 0]
            if nffi:
                if h in known:
                    knownhits.append((h, known[h][1]))
                else:
                    viols.append((h, "no-failing-input-found", None, dict(r, obligations=nffi)))
            for o in obls:
                if o["status"] != "proved" and o not in nffi:
                    undecided.append("%s: %s (%s; %d seeded native runs found nothing)" % (h, o["label"], o["status"], nat["runs"]))

        repo = lambda f: re.match(r"(.*\s)?[\w:<>~, \*&]*maxwell::", f) and "vh_" not in f and "std::" not in f.split("(")[0]
        own = sorted(f for f in direct if repo(f))
        through = sorted(f for f in entered if repo(f) and f not in direct)
        dep = sorted({f.split("(")[0] for f in entered if "mfem::" in f.split("(")[0] and "std::" not in f.split("(")[0] and "maxwell::" not in f.split("(")[0]})
        n = 0
        lines = []
        for h, how, out, r in viols:
            n += 1
            p = os.path.join(rdir, "%s-%s-%d.txt" % (prop, h, n))
            with open(p, "w") as fp:
                fp.write("property: %s\ncontract: %s\nunit: %s\nfound by: %s\n" % (prop, h, results[h][0], how))
                if out:
                    fp.write(out)
                    m = re.search(r"label: (.*)", out)
                    print("contract %s fails: %s" % (h, m.group(1) if m else ""))
                else:
                    print("contract %s fails: %s" % (h, r["obligations"][0]["label"]))
                fp.write("\nverifier:\n" + json.dumps([o for o in r["obligations"] if o["status"] != "proved"], indent=1)[:20000] + "\n")
            lines.append("VIOLATION property=%s replay=%s%s" % (prop, p, "" if out else " no-failing-input-found"))
        ev = {
            "property": prop, "tier": TIER, "seed": SEED, "level": level(results),
            "coverage": {
                "explanation": "obligations and discharged count the contracts stated for every size; bounded_obligations and bounded_discharged those whose sizes are fixed as listed under bounded, with every value arbitrary. Calls are entered, not replaced by the contract of the callee.",
                "obligations": nobl, "discharged": ndis, "bounded_obligations": bobl, "bounded_discharged": bdis,
                "checker_cmd": "%s engine/verify.py (own obligation generator over LLVM IR of /repo's sources; back ends: simplifier, ring normaliser, z3, cvc5)" % os.path.basename(PY),
                "trusted_base": TRUSTED,
                "discharged_by": backends, "solver_seconds": round(ssec, 3),
                "contracts": len(results), "paths": npaths, "loop_summaries": nsum,
                "memory_safety": safety, "reachability_witnesses": covers, "native_runs": nruns,
                "functions_under_contract": own, "functions_entered_from_them": through, "dependency_functions_taken_from_stand_ins": dep,
                "bounded": boundeds, "undecided": undecided, "vacuous": vacuous,
                "per_contract": per,
            },
            "assumptions": ASSUME + sorted(assumed) + ["bounded stand-in: " + b for b in boundeds] + ["not decided: " + u for u in undecided],
            "wall_s": round(time.time() - T0, 3), "violations": len(viols),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
        for h, what in knownhits:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        print("%s: %d contracts, %d/%d obligations discharged, %d/%d at bounded sizes, %d functions under contract and %d entered from them, %d undecided, %d bounded, %.1f s" % (
            prop, len(results), ndis, nobl, bdis, bobl, len(own), len(through), len(undecided), len(boundeds), time.time() - T0))
        for b in boundeds + undecided:
            print("  note: " + b[:300])
        for l in lines:
            print(l)
        if viols:
            return 1
        if vacuous:
            print("ERROR: contracts without a reachable obligation: " + ", ".join(vacuous))
            return 3
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) != 2:
        raise SystemExit(__doc__)
    if sys.argv[1] == "--setup":
        irdump()
        runtime_obj()
        sys.exit(0)
    sys.exit(main(sys.argv[1]))
