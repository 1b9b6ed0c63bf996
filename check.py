#!/usr/bin/env python3
"""Decide one property on the current source of /repo.   python3 check.py --property C01

exit 0  the property holds on everything analysed
exit 1  it does not: VIOLATION lines name rule and construct
exit 2  the analysis could not decide (counted and explained in the evidence file)"""
import argparse
import hashlib
import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")

from ndm import boot, core, props  # noqa: E402
from pyabs.values import Budget, PyRaise, Unsupported  # noqa: E402


def short(x, n=300):
    x = str(x)
    return x if len(x) <= n else x[:n] + "..."


def rel(p):
    return os.path.relpath(p, boot.REPO) if isinstance(p, str) and p.startswith("/") else p


def construct(r):
    """file and function a discrepancy belongs to"""
    if r.get("where"):
        return str(r["where"]).replace(boot.REPO + "/", "")
    if r["side"] == "model":
        return r["path"]
    m = str(r["path"]).split(":")[0]
    if m.startswith(("ndm_io.", "ndm_xml_io.", "ndm_kvn_io.")):
        mod, fn = m.split(".", 1)
        return "ccsds_ndm/%s.py %s" % (mod, fn)
    side = {"write": "ccsds_ndm/ndm_kvn_io.py NdmKvnIo.to_string", "read": "ccsds_ndm/ndm_kvn_io.py NdmKvnIo.from_string",
            "roundtrip": "ccsds_ndm/ndm_kvn_io.py NdmKvnIo.to_string/from_string", "xmlread": "ccsds_ndm/ndm_xml_io.py NdmXmlIo.from_string",
            "xmlwrite": "ccsds_ndm/ndm_xml_io.py NdmXmlIo.to_string", "xmlrt": "ccsds_ndm/ndm_xml_io.py NdmXmlIo.to_string/from_string",
            "combined": "ccsds_ndm/ndm_xml_io.py NdmXmlIo.from_string", "history": "ccsds_ndm (sequence of calls)"}
    return side.get(r["side"], "ccsds_ndm") + " [%s]" % r["path"]


def key(p, r):
    import re
    path = re.sub(r"\[\d+\]", "[]", str(r["path"]))
    return "%s/%s/%s/%s" % (r["side"], r["what"], r["aspect"], path)


def known():
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8"):
            if l.startswith("finding: "):
                d = dict(x.split("=", 1) for x in l[9:].split(" ", 2)[:2])
                out.append((d["property"], d["key"], l[9:].split(" ", 2)[2].strip()))
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    p = props.PROPS[a.property]
    tier = "thorough" if a.tier == "thorough" else "quick"
    budget = a.budget or (780 if tier == "thorough" else 400)
    t0 = time.time()
    out_dir = os.path.join(HERE, "evidence")
    os.makedirs(out_dir, exist_ok=True)
    ev = {"property": p.pid, "tier": tier, "seed": a.seed, "level": "other", "coverage": {"explanation": "the source could not be loaded"},
          "assumptions": [], "wall_s": 0, "violations": 0}

    def finish(code):
        ev["wall_s"] = round(time.time() - t0, 2)
        with open(os.path.join(out_dir, p.pid + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        sys.stdout.flush()
        os._exit(code)

    def violation(items):
        path = os.path.join("evidence", p.pid + ".violation.json")
        with open(os.path.join(HERE, path), "w", encoding="utf-8") as f:
            json.dump(items, f, indent=1, default=str)
        ev["violations"] = len(items)
        for x in items[:12]:
            print("%s: rule %s\n    construct: %s\n    %s\n    analysed: %s" % (
                p.pid, x["rule"], x["construct"], short(x["message"]), short(x["job"], 200)))
        if len(items) > 12:
            print("... and %d more, see %s" % (len(items) - 12, path))
        print("VIOLATION property=%s replay=%s" % (p.pid, path))
        finish(1)

    try:
        core.init()
    except boot.Missing as x:
        violation([{"rule": p.rule, "construct": str(x), "message": "the package lacks %s" % x, "job": "loading the package"}])
    except (Unsupported, Budget, PyRaise) as x:
        ev["coverage"]["explanation"] = "the source could not be loaded: %s %s" % (type(x).__name__, short(getattr(x, "where", "") or x))
        print("ANALYSIS-INCOMPLETE property=%s %s" % (p.pid, ev["coverage"]["explanation"]))
        finish(2)

    jobs = p.jobs(tier, random.Random(a.seed))
    seen, uniq = set(), []
    for j in jobs:
        k = repr(j)
        if k not in seen:
            seen.add(k)
            uniq.append(j)
    jobs = uniq
    n = len(jobs)
    st = p.selftests
    kf = [x for x in known() if x[0] == p.pid]
    kk = {x[1] for x in kf}
    res = core.run(st + jobs, budget=budget, limit=300 if tier == "thorough" else 60,
                   hit=lambda r: r["i"] >= len(st) and any(p.filt(q) and key(p, q) not in kk for q in r["recs"]))
    sres, res = res[:len(st)], res[len(st):]

    tot, funcs, why, viol, ok = {}, set(), {}, {}, 0
    for r in res:
        if r is None:
            why["not reached within the time budget"] = why.get("not reached within the time budget", 0) + 1
            continue
        for k, v in r["counts"].items():
            tot[k] = tot.get(k, 0) + v
        funcs |= set(map(tuple, r["funcs"]))
        if r["status"] != "ok":
            why[r["why"][:160]] = why.get(r["why"][:160], 0) + 1
        else:
            ok += 1
        for q in r["recs"]:
            if p.filt(q):
                viol.setdefault(key(p, q), (q, r))
    for k in list(viol):
        for x in kf:
            if x[1] == k:
                print("KNOWN-FINDING: property=%s %s" % (p.pid, x[2]))
                del viol[k]
                break
    bad_self = [(j, r) for j, r in zip(st, sres) if r is not None and r["status"] == "ok" and not [q for q in r["recs"] if p.filt(q)]]
    sha = {}
    for m, h in sorted(getattr(core.E, "sources", {}).items()):
        sha[rel(m)] = h
    obligations = sum(v for k, v in tot.items() if k not in ("steps", "paths", "forks"))
    ev["coverage"] = {
        "explanation": "%s. Rule: %s. The source under %s was parsed and interpreted over abstract values; %d analyses, of which %d gave a verdict; "
                       "%d comparisons made on %d paths. %s" % (p.technique, p.rule, boot.REPO, n, ok, obligations, tot.get("paths", 0), p.qtext),
        "analyses": n, "conclusive": ok, "inconclusive": why, "obligations": obligations, "counts": tot,
        "functions_analysed": len(funcs), "functions": sorted("%s:%s" % f for f in funcs if str(f[0]).startswith("ccsds_ndm") and "/models/" not in f[0]),
        "self_tests": [{"analysis": short(j, 120), "reported": bool(r and r["recs"]), "status": r["status"] if r else "not run"} for j, r in zip(st, sres)],
        "samples": [short(j, 400) for j in random.Random(a.seed).sample(jobs, min(3, n))], "rule": p.rule,
    }
    ev["assumptions"] = [props.NOTE]
    if viol:
        violation([{"rule": p.rule + " (" + k + ")", "construct": construct(q), "message": q["msg"], "job": "%s %r" % (r["name"], r["kw"]),
                    "functions": ["%s:%s" % tuple(f) for f in r["funcs"] if "/models/" not in f[0]][:60]} for k, (q, r) in viol.items()])
    if bad_self:
        print("ANALYSIS-INCOMPLETE property=%s self-test not reported: %s" % (p.pid, short(bad_self[0][0])))
        finish(2)
    if ok * 2 < n or obligations == 0 or not [f for f in funcs if str(f[0]).startswith("ccsds_ndm")] and p.jobs and obligations < 1:
        print("ANALYSIS-INCOMPLETE property=%s only %d of %d analyses gave a verdict: %s" % (p.pid, ok, n, short(why)))
        finish(2)
    print("%s holds: %d of %d analyses conclusive, %d comparisons, %d paths, %d functions%s" % (
        p.pid, ok, n, obligations, tot.get("paths", 0), len(funcs), "" if ok == n else "; inconclusive: %s" % short(why)))
    finish(0)


if __name__ == "__main__":
    main()
