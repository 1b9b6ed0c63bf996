"""Job runner: a check is a set of jobs, each an abstract-interpretation run over the analysed
source; jobs run in forked workers that share one boot of the analysed package."""
import multiprocessing
import os
import signal
import sys
import time
import traceback

from pyabs.values import *

from . import boot
from .tree import ModelGap

JOBS = {}
E = None
CL = None
BOOT = {}


def job(fn):
    JOBS[fn.__name__] = fn
    return fn


class Rec(dict):
    """a discrepancy: side, kind, what, aspect, path, msg [, where]"""


def rec(side, kind, what, aspect, path, msg, where=""):
    return {"side": side, "kind": kind, "what": what, "aspect": aspect, "path": path, "msg": msg, "where": where}


def init(repo=None):
    global E, CL
    E = boot.boot(repo)
    CL = boot.model_classes(E)
    BOOT["events"] = [x for x, c in boot.events(E)]
    BOOT["modules"] = len(E.modules)
    boot.load_selftest(E)
    boot.settle(E)



def _alarm(sig, frame):
    raise Budget("wall clock")


def run_one(item):
    i, name, kw, limit = item
    e = E
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, limit + 15)
    except ValueError:
        pass
    mark = len(e.journal)
    ctr = e.ctr
    hooks, pc = e.hooks, e.pc
    e.hooks, e.pc = {}, {}
    e.covered = set()
    e.notes = {}
    s0 = e.steps
    e.deadline = time.time() + limit
    e.cut = None
    t = time.time()
    out = {"i": i, "name": name, "kw": kw, "status": "ok", "recs": [], "counts": {}, "why": ""}
    try:
        r = JOBS[name](e, CL, **kw)
        out["recs"], out["counts"] = r
        if e.cut:
            out["status"], out["why"] = "inconclusive", "some paths not decided: %s" % e.cut
    except ModelGap as x:
        out["recs"] = [rec("model", kw.get("kind", ""), "model", "gap", str(x), "the object model lacks %s" % x)]
    except boot.Missing as x:
        out["recs"] = [rec("model", kw.get("kind", ""), "model", "gap", str(x), "the package lacks an entry point: %s" % x)]
    except (Unsupported, Budget) as x:
        out["status"], out["why"] = "inconclusive", "%s: %s" % (type(x).__name__, str(x)[:300])
    except NeedChoice as x:
        out["status"], out["why"] = "inconclusive", "undecided choice %r" % (x.args[:1],)
    except PyRaise as x:
        out["status"], out["why"] = "inconclusive", "exception outside the analysed call at %s" % (x.where,)
    except RecursionError:
        out["status"], out["why"] = "inconclusive", "recursion limit"
    except Exception as x:
        out["status"], out["why"] = "inconclusive", "internal: %s" % traceback.format_exc().splitlines()[-1][:300]
        if os.environ.get("NDM_DEBUG"):
            out["why"] += "\n" + traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        e.hooks, e.pc = hooks, pc
        try:
            e.rollback(mark)
        except Exception:
            pass
        e.ctr = ctr
        e.stack, e.depth = [], 0
    out["counts"] = dict(out["counts"])
    out["counts"]["steps"] = e.steps - s0
    out["funcs"] = sorted({(os.path.relpath(f, e.repo), q) for f, q in e.covered})
    out["notes"] = dict(e.notes)
    out["t"] = time.time() - t
    return out


def run(jobs, procs=None, limit=120, budget=None, hit=None, enough=(6, 45)):
    """jobs: list of (name, kw). returns results in order (None: not run, budget exhausted).
    hit(result): the result shows a violation; after enough[0] of them and enough[1] seconds the rest is not run"""
    if E is None:
        init()
    procs = procs or min(8, os.cpu_count() or 1)
    items = [(i, n, kw, limit) for i, (n, kw) in enumerate(jobs)]
    res = [None] * len(items)
    t0 = time.time()
    if procs == 1 or len(items) == 1:
        for it in items:
            r = run_one(it)
            res[r["i"]] = r
            if budget and time.time() - t0 > budget:
                break
        return res
    hits = 0
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, len(items))) as pool:
        it = pool.imap_unordered(run_one, items, chunksize=1)
        for _ in items:
            end = budget or 1e9
            if hits >= enough[0]:
                end = min(end, enough[1])
            left = max(.1, end - (time.time() - t0)) if end < 1e9 else None
            try:
                r = it.next(left)
            except multiprocessing.TimeoutError:
                pool.terminate()
                break
            res[r["i"]] = r
            hits += bool(hit and hit(r))
    return res
